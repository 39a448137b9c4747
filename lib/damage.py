"""Damaging silos: re-encoding of records with something changed, and raw
changes of bytes."""
import hashlib
import os
import random
import struct
import zlib

import warc

SEP = bytes.fromhex("1f8b0800200119660203e3e5e2e5020044"
                    "15c28b04000000")


def sha(b):
    return hashlib.sha256(b).hexdigest()


def member(data, level=9, aa=0):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    d = c.compress(data) + c.flush()
    h = bytes.fromhex("1f8b08040000000002030c0041610800")
    n = len(h) + 8 + len(d) + 8
    return h + struct.pack("<Q", n + aa) + d + struct.pack(
        "<II", zlib.crc32(data), len(data) & 0xffffffff)


def encode(fields, body, aa=0, gzbody=None):
    t = b"WARC/1.1\r\n" + b"".join(
        b"%s: %s\r\n" % (n.encode("latin1"), v.encode("latin1"))
        for n, v in fields) + b"\r\n"
    if gzbody is None:
        gzbody = member(body, aa=aa)
    return member(t) + gzbody + SEP


def setf(fields, name, val):
    return [(n, val if n.lower() == name.lower() else v) for n, v in fields]


def getf(fields, name):
    for n, v in fields:
        if n.lower() == name.lower():
            return v
    return None


def change_num(s, rng, deltas):
    """Another number than s, sometimes one which looks like it."""
    x = rng.randrange(8)
    if x == 0:
        return s + rng.choice("0123456789")
    if x == 1 and len(s) > 1:
        return s[:-1]
    if x == 2:
        return rng.choice("123456789") + s
    if x == 3 and len(s) > 1 and s[1] != "0":
        return s[1:]
    return "%d" % (int(s) + rng.choice(deltas))


def change_digest(s, rng):
    x = rng.randrange(10)
    if x == 0:
        return s[:-rng.choice([1, 2, 32, 60])]
    if x == 1:
        return s + rng.choice(["0", "00", s[-4:]])
    if x == 2:
        return "sha1:" + s[7:]
    return change_hex(s, rng, 64)


def change_hex(s, rng, last=16):
    """Another hexadecimal digit somewhere in the last of s."""
    pos = [i for i, c in enumerate(s) if c in "0123456789abcdef" and
           i >= len(s) - last - 1]
    if not pos:
        return s + "0"
    i = rng.choice(pos)
    c = rng.choice([x for x in "0123456789abcdef" if x != s[i]])
    return s[:i] + c + s[i + 1:]


SEMANTIC = ("body", "bodydigest", "clen", "digest", "id", "aa", "payload",
            "total", "segno", "origin", "dropseg", "dropsilo", "swap",
            "grow", "alldigest", "rebody", "newid", "meta", "drop")


def semantic(h, how, rng):
    """Damages one record of h's archive with valid framing.  Returns the
    silo numbers concerned, or None if it does not apply."""
    a = h.a
    cands = [(n, i) for n in sorted(h.silo_recs)
             for i, r in enumerate(h.silo_recs[n])
             if r.type != "warcinfo" and os.path.exists(a.silo_fn(n))]
    segs = [(n, i) for n, i in cands if h.silo_recs[n][i].segno is not None]
    if how in ("payload", "total", "segno", "origin", "dropseg", "dropsilo"):
        cands = segs
    elif rng.random() < .15 and how in ("body", "bodydigest", "clen",
                                        "digest", "id", "aa", "drop"):
        cands = [(n, 0) for n in sorted(h.silo_recs)
                 if os.path.exists(a.silo_fn(n))]
    if how in ("rebody", "newid", "meta"):
        return consistent(h, how, rng, cands)
    if how == "payload":
        cands = [(n, i) for n, i in cands if h.silo_recs[n][i].segno == 1]
    if how == "total":
        cands = [(n, i) for n, i in cands if
                 h.silo_recs[n][i].get("WARC-Segment-Total-Length")]
    if how == "origin":
        cands = [(n, i) for n, i in cands if h.silo_recs[n][i].segno > 1]
    if not cands:
        return None
    n, i = rng.choice(cands)
    r = h.silo_recs[n][i]
    damaged_type[0] = r.type
    conc = {n}
    if r.segno is not None:
        o = (r.get("WARC-Segment-Origin-ID") or
             r.get("WARC-Record-ID")).lower()
        conc = {m for m, j in segs if
                (h.silo_recs[m][j].get("WARC-Segment-Origin-ID") or
                 h.silo_recs[m][j].get("WARC-Record-ID")).lower() == o}
    f, body, aa = list(r.fields), r.body, 0
    gzb = None
    fn = a.silo_fn(n)
    data = h.silo_data[n]
    if how == "dropsilo":
        os.unlink(fn)
        return sorted(conc - {n}) if len(conc) > 1 else None
    if how == "dropseg":
        with open(fn, "wb") as fh:
            fh.write(data[:r.off] + data[r.end:])
        return sorted(conc)
    if how == "swap":
        oth = [(m, j) for m, j in cands if
               h.silo_recs[m][j].body != r.body]
        if not oth:
            return None
        m, j = rng.choice(oth)
        body = h.silo_recs[m][j].body
        f = setf(f, "Content-Length", "%d" % len(body))
    elif how in ("body", "bodydigest", "alldigest"):
        p = rng.randrange(len(body))
        body = body[:p] + bytes([body[p] ^ (1 << rng.randrange(8))]) + \
            body[p + 1:]
        if how != "body":
            f = setf(f, "WARC-Block-Digest", "sha256:" + sha(body))
        if how == "alldigest" and getf(f, "WARC-Payload-Digest") and \
                r.segno is None:
            f = setf(f, "WARC-Payload-Digest", "sha256:" + sha(body))
    elif how == "grow":
        body = rng.choice([body + b"\0", body[:-1], body + body])
        if not body:
            return None
        if rng.random() < .5:
            f = setf(f, "Content-Length", "%d" % len(body))
    elif how == "clen":
        f = setf(f, "Content-Length", change_num(
            "%d" % len(body), rng, [-1, 1, 10, 1 << 32]))
    elif how == "digest":
        f = setf(f, "WARC-Block-Digest",
                 change_digest(getf(f, "WARC-Block-Digest"), rng))
    elif how == "id":
        f = setf(f, "WARC-Record-ID",
                 change_hex(getf(f, "WARC-Record-ID"), rng, a.idsize))
    elif how == "aa":
        aa = rng.choice([-1, 1, 2, 256, -2])
        d = data[r.bodyoff:r.bodyoff + r.blen]
        gzb = d[:16] + struct.pack("<Q", len(d) + aa) + d[24:]
    elif how == "payload":
        f = setf(f, "WARC-Payload-Digest",
                 change_digest(getf(f, "WARC-Payload-Digest"), rng))
    elif how == "total":
        f = setf(f, "WARC-Segment-Total-Length", change_num(
            getf(f, "WARC-Segment-Total-Length"), rng, [-1, 1, 1000]))
    elif how == "drop":
        # a header field which every such record has
        l = ["WARC-Block-Digest", "Content-Length"]
        if r.segno is not None:
            l.append("WARC-Segment-Number")
        if r.segno == 1:
            l.append("WARC-Payload-Digest")
        elif r.segno:
            l.append("WARC-Segment-Origin-ID")
        if getf(f, "WARC-Segment-Total-Length"):
            l.append("WARC-Segment-Total-Length")
        x = rng.choice(l).lower()
        f = [(k, v) for k, v in f if k.lower() != x]
    elif how == "segno":
        f = setf(f, "WARC-Segment-Number", "%d" % (
            r.segno + rng.choice([1, 2, 7])))
    elif how == "origin":
        f = setf(f, "WARC-Segment-Origin-ID",
                 change_hex(getf(f, "WARC-Segment-Origin-ID"), rng, a.idsize))
    new = data[:r.off] + encode(f, body, aa, gzb) + data[r.end:]
    with open(fn, "wb") as fh:
        fh.write(new)
    return sorted(conc)


def consistent(h, how, rng, cands):
    """Changes an object so that only its identifier tells."""
    a = h.a
    one = [(n, i) for n, i in cands if h.silo_recs[n][i].segno in (None, 1)]
    if how == "meta":
        one = [(n, i) for n, i in one
               if h.silo_recs[n][i].type == "metadata"]
    if not one:
        return None
    for pick in (lambda r: r.segno == 1 and r.type == "metadata",
                 lambda r: r.segno == 1, lambda r: r.type == "metadata"):
        l = [x for x in one if pick(h.silo_recs[x[0]][x[1]])]
        if l and rng.random() < .5:
            one = l
            break
    n, i = rng.choice(one)
    r = h.silo_recs[n][i]
    damaged_type[0] = r.type
    chain = [(n, i)]
    if r.segno == 1:
        o = r.get("WARC-Record-ID").lower()
        rest = [(m, j) for m in h.silo_recs
                for j, q in enumerate(h.silo_recs[m]) if (
                    q.get("WARC-Segment-Origin-ID") or "").lower() == o]
        if any(not os.path.exists(a.silo_fn(m)) for m, _ in rest):
            return None
        rest.sort(key=lambda x: h.silo_recs[x[0]][x[1]].segno)
        if [h.silo_recs[m][j].segno for m, j in rest] != \
                list(range(2, len(rest) + 2)):
            return None
        chain += rest
    bodies = [h.silo_recs[m][j].body for m, j in chain]
    fields = [list(h.silo_recs[m][j].fields) for m, j in chain]
    if how == "rebody":
        k = rng.choice([x for x in range(len(bodies)) if bodies[x]] or [0])
        b = bodies[k]
        if not b:
            return None
        p = rng.randrange(len(b))
        bodies[k] = b[:p] + bytes([b[p] ^ 1]) + b[p + 1:]
        whole = sha(b"".join(bodies))
        fields[k] = setf(fields[k], "WARC-Block-Digest",
                         "sha256:" + sha(bodies[k]))
        fields[0] = setf(fields[0], "WARC-Payload-Digest", "sha256:" + whole)
    elif how == "newid":
        old = getf(fields[0], "WARC-Record-ID")
        new = change_hex(old, rng, a.idsize)
        for k in range(len(fields)):
            for name in ("WARC-Record-ID", "WARC-Segment-Origin-ID"):
                if getf(fields[k], name) == old:
                    fields[k] = setf(fields[k], name, new)
    else:
        ref = getf(fields[0], "WARC-Refers-To")
        if ref is None:
            return None
        fields[0] = setf(fields[0], "WARC-Refers-To",
                         change_hex(ref, rng, a.idsize))
    # from the end, so that the offsets stay
    for (m, j), f, b in sorted(zip(chain, fields, bodies),
                               key=lambda x: x[0], reverse=True):
        q = h.silo_recs[m][j]
        fn = a.silo_fn(m)
        with open(fn, "rb") as fh:
            data = fh.read()
        with open(fn, "wb") as fh:
            fh.write(data[:q.off] + encode(f, b) + data[q.end:])
    return sorted({m for m, _ in chain})


damaged_type = [None]

RAW = ("flip", "flip", "flip", "byte", "zero", "trunc", "append", "insert",
       "delete", "swapblocks", "header")


def raw(data, how, rng, lo=0):
    """A raw change of bytes of data, from lo on."""
    n = len(data)
    if n - lo < 2:
        return data
    p = rng.randrange(lo, n)
    d = bytearray(data)
    if how == "flip":
        d[p] ^= 1 << rng.randrange(8)
    elif how == "byte":
        d[p] = rng.randrange(256)
    elif how == "header":           # in the first bytes of something
        q = data.find(b"\x1f\x8b\x08", p)
        if q < 0 or q + 24 > n:
            q = 0
        p = q + rng.randrange(24)
        d[p] = rng.choice([0, 255, d[p] ^ 1, rng.randrange(256)])
    elif how == "zero":
        m = rng.choice([1, 8, 100, 4096])
        d[p:p + m] = bytes(len(d[p:p + m]))
    elif how == "trunc":
        d = d[:p]
    elif how == "append":
        d += rng.choice([b"\0", b"\n", bytes(100), rng.randbytes(30),
                         data[lo:lo + 400]])
    elif how == "insert":
        d[p:p] = rng.randbytes(rng.choice([1, 2, 100]))
    elif how == "delete":
        del d[p:p + rng.choice([1, 2, 100])]
    elif how == "swapblocks":
        q = rng.randrange(lo, n)
        m = rng.choice([1, 16, 512])
        x, y = bytes(d[p:p + m]), bytes(d[q:q + m])
        k = min(len(x), len(y))
        d[p:p + k] = y[:k]
        d[q:q + k] = x[:k]
    return bytes(d)


def unsound(data):
    """Whether an independent reader finds fault with the silo; the length
    in the gzip header of WARC headers does not count."""
    try:
        recs = warc.parse_silo(data)
    except warc.Bad as e:
        return str(e)
    for r in recs:
        for e in r.errs:
            if not e.startswith("header member"):
                return e
    return None
