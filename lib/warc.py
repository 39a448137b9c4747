"""Independent readers of AardWARC's files: silos (WARC/1.1 in gzip members
with the length in an 'Aa' extra field), index files and the cache file.

Nothing here uses the code under test.
"""
import hashlib
import os
import re
import struct
import zlib

F_WARCINFO, F_RESOURCE, F_METADATA = 0x2, 0x4, 0x8
F_SEG, F_FIRST, F_LAST = 0x10, 0x20, 0x40


class Bad(Exception):
    pass


def gz_member(data, off, limit=1 << 28):
    """Decompresses the gzip member at off; returns (bytes, end, extra)."""
    if len(data) - off < 18:
        raise Bad("truncated gzip member at %d" % off)
    if data[off:off + 3] != b"\x1f\x8b\x08":
        raise Bad("no gzip member at %d" % off)
    extra = None
    if data[off + 3] & 4:
        xl = struct.unpack_from("<H", data, off + 10)[0]
        extra = bytes(data[off + 12:off + 12 + xl])
    z = zlib.decompressobj(31)
    try:
        out = z.decompress(memoryview(data)[off:], limit)
    except zlib.error as e:
        raise Bad("bad gzip member at %d: %s" % (off, e))
    if not z.eof:
        raise Bad("incomplete gzip member at %d" % off)
    end = len(data) - len(z.unused_data)
    return out, end, extra


def aa_length(extra):
    """The member length from the Aa subfield of the extra field."""
    p = 0
    while extra is not None and p + 4 <= len(extra):
        ln = struct.unpack_from("<H", extra, p + 2)[0]
        if extra[p:p + 2] == b"Aa" and ln == 8:
            return struct.unpack_from("<Q", extra, p + 4)[0]
        p += 4 + ln
    return None


class Rec:
    __slots__ = ("off", "end", "fields", "names", "body", "hlen", "blen",
                 "bodyoff", "errs")

    def get(self, name):
        for n, v in self.fields:
            if n.lower() == name.lower():
                return v
        return None

    @property
    def type(self):
        return self.get("WARC-Type")

    @property
    def segno(self):
        s = self.get("WARC-Segment-Number")
        return None if s is None else int(s)


def parse_fields(text):
    """The header fields of a WARC header block; raises Bad."""
    if not text.startswith(b"WARC/1.1\r\n"):
        raise Bad("header does not start with WARC/1.1: %r" % text[:40])
    if not text.endswith(b"\r\n\r\n"):
        raise Bad("header does not end with an empty line")
    fields = []
    for ln in text[10:-4].split(b"\r\n"):
        if b"\r" in ln or b"\n" in ln:
            raise Bad("stray line end in header: %r" % ln)
        m = re.match(rb"^([!#$%&'*+\-.^_`|~0-9A-Za-z]+):[ \t]*(.*)$", ln, re.S)
        if not m:
            raise Bad("not a header field: %r" % ln[:80])
        fields.append((m.group(1).decode("latin1"),
                       m.group(2).decode("latin1")))
    names = [n.lower() for n, _ in fields]
    if len(set(names)) != len(names):
        raise Bad("header field repeated: %s" % names)
    return fields


def parse_record(data, off):
    """Parses one record; errors of the contents are put in .errs, errors of
    the framing raise Bad."""
    r = Rec()
    r.off = off
    r.errs = []
    text, e1, x1 = gz_member(data, off)
    if aa_length(x1) is None:
        r.errs.append("header member has no Aa length")
    elif aa_length(x1) != e1 - off:
        r.errs.append("header member Aa length %d is not %d" %
                      (aa_length(x1), e1 - off))
    r.fields = parse_fields(text)
    body, e2, x2 = gz_member(data, e1)
    if aa_length(x2) is None:
        r.errs.append("body member has no Aa length")
    elif aa_length(x2) != e2 - e1:
        r.errs.append("body member Aa length %d is not %d" %
                      (aa_length(x2), e2 - e1))
    sep, e3, _ = gz_member(data, e2)
    if sep != b"\r\n\r\n":
        r.errs.append("record separator is %r" % sep[:20])
    r.body = body
    r.hlen = e1 - off
    r.bodyoff = e1
    r.blen = e2 - e1
    r.end = e3
    for n in ("WARC-Record-ID", "WARC-Type", "WARC-Date", "Content-Length",
              "Content-Type", "WARC-Block-Digest"):
        if r.get(n) is None:
            r.errs.append("no %s" % n)
    cl = r.get("Content-Length")
    if cl is not None and (not re.match(r"^[0-9]+$", cl) or
                           int(cl) != len(body)):
        r.errs.append("Content-Length is %r, body has %d" % (cl, len(body)))
    if cl is not None and re.match(r"^0[0-9]", cl):
        r.errs.append("Content-Length has leading zeros: %r" % cl)
    bd = r.get("WARC-Block-Digest")
    if bd is not None and bd != "sha256:" + hashlib.sha256(body).hexdigest():
        r.errs.append("WARC-Block-Digest %s does not match the body" % bd)
    d = r.get("WARC-Date")
    if d is not None and not re.match(
            r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$", d):
        r.errs.append("WARC-Date is %r" % d)
    return r


def parse_silo(data, off=0):
    """All records from off on; raises Bad if the framing is wrong."""
    recs = []
    while off < len(data):
        r = parse_record(data, off)
        recs.append(r)
        off = r.end
    return recs


# -- index ------------------------------------------------------------------

IDX = struct.Struct(">12sIIQ4s")


def rec_pack(key, flags, silo, off, cont="00000000"):
    k = (key[:24] + "0" * 24)[:24]
    return IDX.pack(bytes.fromhex(k), flags, silo, off,
                    bytes.fromhex((cont[:8] + "0" * 8)[:8]))


def rec_tuple(b):
    k, f, s, o, c = IDX.unpack(b)
    return (k.hex(), f, s, o, c.hex())


def read_index_file(fn, is_sorted):
    try:
        with open(fn, "rb") as f:
            d = f.read()
    except FileNotFoundError:
        return None
    if is_sorted:
        if len(d) < 8 or d[:2] != b"Aa":
            raise Bad("sorted index has no header")
        h = 1 << (d[2] + 3)
        if len(d) < h:
            raise Bad("sorted index is shorter than its header")
        d = d[h:]
    if len(d) % 32:
        raise Bad("%s: partial record (%d bytes)" %
                  (os.path.basename(fn), len(d)))
    return [rec_tuple(d[i:i + 32]) for i in range(0, len(d), 32)]


def read_index(sdir):
    """All entries: list of (file, entry)."""
    res = []
    for n, s in (("appendix", 0), ("housekeep", 0), ("sorted", 1)):
        r = read_index_file(os.path.join(sdir, "index." + n), s)
        for e in r or []:
            res.append((n, e))
    return res


def silo_path(no):
    """Documented place of silo number no, relative to the directory."""
    lvl, n, parts = 0, no, []
    while n >= 100:
        if lvl > 0:
            parts.insert(0, "%02d" % (n % 100))
        n //= 100
        lvl += 1
    if lvl > 0:
        parts.insert(0, "%02d" % (n % 100))
    return "/".join([str(lvl)] + parts) + "/"
