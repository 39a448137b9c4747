"""The stateful engine: runs histories of AardWARC commands in a scratch
archive, keeps a reference model beside it, and compares the two.

Differences are reported as (tags, message); each property check picks the
tags which concern it.
"""
import calendar
import hashlib
import os
import random
import re
import shutil
import subprocess
import time

import damage
import warc
from core import HANG, Outcome, Stop

HEX = "0123456789abcdef"


def sha(b):
    return hashlib.sha256(b).hexdigest()


# -- contents -----------------------------------------------------------------

WORDS = (b"the archive of ones and zeros keeps every byte it was given and "
         b"gives back the same bytes when somebody asks for them later on "
         ).split()


def gz(b, level=6):
    import zlib
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(b) + c.flush()


def part(p):
    k, n, s = p[0], p[1], p[2] if len(p) > 2 else 0
    if k != "b" and n <= 0:
        return b""
    if k == "r":
        return random.Random("r%d" % s).randbytes(n)
    if k == "z":
        return bytes([s & 0xff]) * n
    if k == "p":
        u = random.Random("p%d" % s).randbytes(1 + s % 977)
        return (u * (n // len(u) + 1))[:n]
    if k == "t":
        r = random.Random("t%d" % s)
        out = []
        ln = 0
        while ln < n:
            w = WORDS[r.randrange(len(WORDS))]
            out.append(w)
            ln += len(w) + 1
        return (b" ".join(out) + b"\n")[:n].ljust(n, b".")
    if k == "h":
        return random.Random("h%d" % s).randbytes(n // 2 + 1).hex()[:n].encode()
    if k == "g":
        # looks like a silo
        g = (gz(b"WARC/1.1\r\nWARC-Record-ID: <x>\r\n\r\n") +
             gz(random.Random("g%d" % s).randbytes(50)) +
             bytes.fromhex("1f8b0800200119660203e3e5e2e5020044"
                           "15c28b04000000"))
        return (g * (n // len(g) + 1))[:n]
    if k == "w":
        t = (b"WARC/1.1\r\nWARC-Record-ID: <http://example.com/%d>\r\n"
             b"Content-Length: 4\r\n\r\n\r\n\r\n" % s)
        return (t * (n // len(t) + 1))[:n]
    if k == "m":
        # mixed blocks of random and constant bytes
        r = random.Random("m%d" % s)
        out = []
        ln = 0
        while ln < n:
            q = r.choice((1, 10, 300, 5000, 40000))
            out.append(r.randbytes(q) if r.random() < .5 else
                       bytes([r.randrange(256)]) * q)
            ln += q
        return b"".join(out)[:n]
    if k == "b":
        return bytes.fromhex(p[1])
    raise ValueError(k)


def content(parts):
    return b"".join(part(p) for p in parts)


# -- configuration -----------------------------------------------------------

DEFCONF = {"prefix": "http://ex.org/a/", "bits": 128, "max": 15360,
           "maxs": None, "base": None, "sort": None, "info": [],
           "rmime": ["*"], "mmime": ["*"], "sname": "s"}


def conf_text(conf, sdir):
    c = dict(DEFCONF)
    c.update(conf)
    t = "WARC-Record-ID:\n\t%s%s\n" % (
        c["prefix"], "" if c["bits"] is None else " %d" % c["bits"])
    t += "warcinfo.body:\n\tdescription: test archive\n"
    for n, v in c["info"]:
        t += "\t%s %s\n" % (n, v)
    t += "silo.directory:\n\t%s\n" % sdir
    if c["max"] is not None:
        t += "silo.max_size:\n\t%s\n" % (c["maxs"] or c["max"])
    if c["base"] is not None:
        t += "silo.basename:\n\t%s\n" % c["base"]
    if c["sort"] is not None:
        t += "index.sort_size:\n\t%s\n" % c["sort"]
    for n, l in (("resource", c["rmime"]), ("metadata", c["mmime"])):
        t += "%s.mime-types:\n" % n
        for m in l:
            t += "\t%s\n" % m
    return t


class Res:
    __slots__ = ("rc", "out", "err", "hung", "args")

    def __str__(self):
        return "%s -> %s out=%r err=%r" % (
            " ".join(self.args), "HUNG" if self.hung else self.rc,
            self.out[-150:], self.err[-600:])

    @property
    def ok(self):
        return self.rc == 0

    @property
    def crashed(self):
        return self.hung or self.rc < 0 or self.sanitizer

    @property
    def sanitizer(self):
        return (b"ERROR: AddressSanitizer" in self.err or
                b"runtime error:" in self.err or
                b"ERROR: LeakSanitizer" in self.err)


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
            "allocator_may_return_null=1:detect_stack_use_after_return=0:"
            "max_allocation_size_mb=3000",
            "UBSAN_OPTIONS": "print_stacktrace=1"}


class Obj:
    def __init__(self, oid, typ, body, mime, ref, t0, t1, forced=False):
        self.id = oid
        self.type = typ
        self.body = body
        self.mime = mime
        self.ref = ref
        self.t0, self.t1 = t0, t1
        self.forced = forced
        self.coll = False
        self.again = False
        self.segmented = None       # set once seen in the silos
        self.len = len(body)


# These have no need to hold more than one silo open at a time.
ONE_SILO = ("audit", "reindex", "rebuild", "housekeeping", "filter", "byid",
            "dumpindex")


class Archive:
    """One archive directory with its configuration."""

    def __init__(self, box, conf, binary, name="a", env=None):
        self.box = box
        self.dir = os.path.join(box, name)
        self.conf = dict(DEFCONF)
        self.conf.update(conf)
        os.makedirs(self.dir, exist_ok=True)
        self.sdir = os.path.join(self.dir, self.conf["sname"])
        self.binary = binary
        self.prefix = self.conf["prefix"]
        self.idsize = (self.conf["bits"] or 128) // 4
        self.max = self.conf["max"] if self.conf["max"] is not None \
            else int(3.5 * (1 << 30))
        self.base = self.conf["base"] or "%08u.warc.gz"
        self.cfgfn = os.path.join(self.dir, "conf")
        os.makedirs(self.sdir, exist_ok=True)
        self.write_conf()
        self.env = {"PATH": "/usr/bin:/bin", "LANG": "C", "HOME": self.dir}
        self.env.update(ASAN_ENV)
        self.env.update(env or {})
        self.nrun = 0
        self.wrap = ()              # put before the command
        self.nofile = None          # for ONE_SILO commands

    def write_conf(self):
        with open(self.cfgfn, "w") as f:
            f.write(conf_text(self.conf, self.sdir + "/"))

    def set_max(self, v):
        self.conf["max"] = self.max = v
        self.conf["maxs"] = None
        self.write_conf()

    def run(self, *args, inp=b"", env=None, cfg=True, timeout=HANG,
            chunks=None, stdin=None, cwd=None, binary=None, stdout=None):
        r = Res()
        e = self.env
        if env:
            e = dict(e)
            e.update(env)
        cmd = list(self.wrap) + [binary or self.binary]
        if self.nofile and any(c in args for c in ONE_SILO):
            cmd = ["sh", "-c", 'ulimit -n %d; exec "$@"' % self.nofile,
                   "sh"] + cmd
        if cfg:
            cmd += ["-c", self.cfgfn]
        cmd += [str(a) for a in args]
        r.args = [str(a) for a in args]
        self.nrun += 1
        p = subprocess.Popen(
            cmd, stdin=stdin if stdin is not None else subprocess.PIPE,
            stdout=stdout if stdout is not None else subprocess.PIPE,
            stderr=subprocess.PIPE, env=e,
            cwd=cwd or self.dir, close_fds=False)
        r.hung = False
        try:
            if chunks:
                try:
                    o = 0
                    for c in chunks:
                        if o >= len(inp):
                            break
                        p.stdin.write(inp[o:o + c])
                        p.stdin.flush()
                        o += c
                        time.sleep(0.0005)
                    rest = inp[o:]
                except BrokenPipeError:
                    rest = b""
                r.out, r.err = p.communicate(rest, timeout=timeout)
            else:
                r.out, r.err = p.communicate(
                    inp if stdin is None else None, timeout=timeout)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            r.out, r.err = p.communicate()
            if r.out is None:
                r.out = b""
            r.rc = -9
            r.hung = True
        return r

    # -- files -------------------------------------------------------------

    def tmpname(self):
        self.ntmp = getattr(self, "ntmp", 0) % 64 + 1
        return os.path.join(self.dir, "t%d" % self.ntmp)

    def silo_fn(self, no):
        return os.path.join(self.sdir, warc.silo_path(no) + self.base % no)

    def base_re(self):
        m = re.match(r"^(.*?)%([-0 +#]*)([0-9]*)(?:\.([0-9]+))?([uxXodi])(.*)$",
                     self.base.replace("%%", "\0"))
        a, b = m.group(1).replace("\0", "%"), m.group(6).replace("\0", "%")
        self._base = {"x": 16, "X": 16, "o": 8}.get(m.group(5), 10)
        return re.compile("^" + re.escape(a) + r"\s*([0-9a-fA-F]+)\s*" +
                          re.escape(b) + "$")

    def silos(self):
        """{number: path} of all installed silos, from the directory tree."""
        rx = getattr(self, "_rx", None)
        if rx is None:
            rx = self._rx = self.base_re()
        res = {}
        self.strays = []
        for d, dn, fn in os.walk(self.sdir):
            for f in fn:
                p = os.path.join(d, f)
                if d == self.sdir:
                    if f not in ("_.cache", "index.appendix", "index.sorted"):
                        self.strays.append(p)
                    continue
                m = rx.match(f)
                n = int(m.group(1), self._base) if m else None
                if n is None or self.silo_fn(n) != p:
                    self.strays.append(p)
                    continue
                res[n] = p
        return res

    def snapshot(self):
        """All files below the silo directory with contents and mode."""
        snap = {}
        for d, dn, fn in os.walk(self.sdir):
            for f in fn:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    snap[os.path.relpath(p, self.sdir)] = (
                        fh.read(), os.stat(p).st_mode & 0o7777)
        return snap

    def cache(self):
        try:
            with open(os.path.join(self.sdir, "_.cache"), "rb") as f:
                b = f.read()
            if len(b) == 8:
                return (int.from_bytes(b[:4], "big"),
                        int.from_bytes(b[4:], "big"))
        except OSError:
            pass
        return (0, 0)


def diff_snap(a, b):
    res = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            res.append("new file %s" % k)
        elif k not in b:
            res.append("%s is gone" % k)
        elif a[k] != b[k]:
            x, y = a[k][0], b[k][0]
            if x == y:
                res.append("mode of %s changed" % k)
            elif y.startswith(x):
                res.append("%s grew by %d" % (k, len(y) - len(x)))
            else:
                res.append("%s changed (%d, %d bytes)" % (k, len(x), len(y)))
    return res


HDR_IGNORE = ("z",)


def parse_get_header(text):
    """The header text get prints -> dict of lower case names."""
    if not text.startswith(b"WARC/1.1\r\n"):
        return None
    d = {}
    body = text[10:]
    if not body.endswith(b"\r\n\r\n"):
        return None
    for ln in body[:-4].split(b"\r\n"):
        n, s, v = ln.partition(b":")
        if not s:
            return None
        d[n.decode("latin1").lower()] = v.strip().decode("latin1")
    return d


class Hist:
    """A history: archive + model + comparisons."""

    def __init__(self, box, conf, binary, out=None, tags=None, env=None,
                 light=False):
        self.a = Archive(box, conf, binary, env=env)
        self.box = box
        self.o = out or Outcome()
        self.tags = tags            # those reported, None = all
        self.objs = {}              # id -> Obj
        self.order = []             # ids in order of store
        self.max_seen = self.a.max
        self.silo_data = {}         # no -> bytes
        self.silo_recs = {}         # no -> [Rec]
        self.silo_mode = {}
        self.maxes = {}             # no -> largest limit it was written under
        self.since = set()          # operations done since the beginning
        self.hint_base = 0          # the cache's hint is not judged below
        self.idx_dup_ok = False
        self.light = light
        self.infile = os.path.join(box, "in")
        self.outfile = os.path.join(box, "out")
        self.made = set()           # silo numbers made by mksilo

    # -- reporting -----------------------------------------------------------

    def bad(self, tags, msg, stop=True):
        if isinstance(tags, str):
            tags = {tags}
        tags = set(tags) | self.context_tags(tags)
        if self.tags is None or tags & self.tags:
            self.o.bad("[%s] %s" % (",".join(sorted(tags)), msg))
        if stop:
            raise Stop()

    def context_tags(self, tags):
        t = set()
        if tags & {"C01", "C07", "C08", "IDX"}:
            # retrieval stopped working after one of these
            if "hk" in self.since:
                t.add("C09")
            if "reindex" in self.since:
                t.add("C11")
            if "rebuild" in self.since:
                t.add("C18")
            if "cache" in self.since or "ro" in self.since or \
                    "maxsize" in self.since:
                t.add("C05")
            if "mksilo" in self.since:
                t.add("C25")
        return t

    # -- operations ------------------------------------------------------------

    def resolve(self, c):
        """Contents from their description, some of it from the archive."""
        if isinstance(c, list):
            return content(c)
        if "seg" in c:              # a segment of a stored object
            segs = []
            for no in sorted(self.silo_recs):
                for r in self.silo_recs[no]:
                    if r.segno is not None:
                        segs.append(r.body)
            if segs:
                return segs[c["seg"] % len(segs)]
            return content([["r", 100, c["seg"]]])
        if "chain" in c:            # begins with the segments of an object
            segs = self.segs_of(c["chain"])
            if segs:
                n = 1 + c.get("n", 0) % len(segs)
                return b"".join(segs[:n]) + content(c.get("tail", []))
            return content([["r", 104, c["chain"]]] + c.get("tail", []))
        if "rep" in c:              # the same segment again and again
            segs = self.segs_of(c["rep"])
            if len(segs) > 1:
                k = 1 + c.get("n", 0) % (len(segs) - 1)
                n = c.get("times", 2)
                while n > 2 and n * len(segs[k]) > 4000000:
                    n -= 1
                return b"".join(segs[:k]) + n * segs[k] + \
                    content(c.get("tail", []))
            return content([["r", 105, c["rep"]]])
        if "info" in c:             # the body of a warcinfo record
            b = [self.silo_recs[n][0].body for n in sorted(self.silo_recs)
                 if self.silo_recs[n]]
            if b:
                return b[c["info"] % len(b)]
            return content([["r", 101, c["info"]]])
        if "silo" in c:             # a silo file
            b = [self.silo_data[n] for n in sorted(self.silo_data)]
            if b:
                return b[c["silo"] % len(b)]
            return content([["r", 102, c["silo"]]])
        if "fill" in c:             # about the capacity of a new silo
            w, h = 700, 420
            for n in sorted(self.silo_recs):
                if self.silo_recs[n]:
                    w = self.silo_recs[n][0].end
                    if len(self.silo_recs[n]) > 1:
                        h = self.silo_recs[n][1].hlen
                    break
            n = min(self.a.max, 90000) - w - h - 24 - 24 - 13 - c["fill"]
            n = max(1, n)
            n -= 5 * (n // 16383 + 1)
            return content([["r", max(1, n), c.get("s", 0)]])
        if "fit" in c:              # about the free space of the last silo
            free = 0
            for n in sorted(self.silo_data):
                free = max(free, self.a.max - len(self.silo_data[n]))
            n = free - 330 - 24 - 24 - 13 - c["fit"]
            n -= 5 * (n // 16383 + 1)
            return content([["r", max(1, min(n, self.a.max, 200000)),
                             c.get("s", 0)]])
        if "edge" in c:             # the record ends near a multiple of m
            m = c.get("m", 65536)
            size = 700
            if self.silo_data:
                size = len(self.silo_data[max(self.silo_data)])
            n = m * (size // m + c.get("q", 1)) - size
            while n < 500:
                n += m
            n -= 330 + 24 + 24 + 13 + c["edge"]
            n -= 5 * (n // 16383 + 1)
            return content([["r", max(1, n), c.get("s", 0)]])
        if "of" in c:               # the same as an object's, or changed
            if not self.order:
                return content([["r", 103, c["of"]]])
            b = self.objs[self.order[c["of"] % len(self.order)]].body
            e = c.get("edit")
            if e == "append":
                b = b + b"x"
            elif e == "chop":
                b = b[:-1] or b"y"
            elif e == "double":
                b = b + b
            elif e == "flip":
                b = bytes([b[0] ^ 1]) + b[1:]
            elif e == "id":         # the text of its identifier
                b = (self.a.prefix +
                     self.order[c["of"] % len(self.order)]).encode() + b"\n"
            return b
        raise ValueError(c)

    def segs_of(self, k):
        """The segments of some segmented object, in order."""
        d = {}
        for no in sorted(self.silo_recs):
            for r in self.silo_recs[no]:
                if r.segno is not None:
                    d.setdefault((r.get("WARC-Segment-Origin-ID") or
                                  r.get("WARC-Record-ID")).lower(), {})[
                        r.segno] = r.body
        l = [x for x in (d[o] for o in sorted(d))
             if sorted(x) == list(range(1, len(x) + 1))]
        if not l:
            return []
        x = l[k % len(l)]
        return [x[i] for i in sorted(x)]

    def mime_ok(self, typ, mime):
        l = self.a.conf["rmime" if typ == "resource" else "mmime"]
        return any(m == "*" or m.lower() == mime.lower() for m in
                   [x.split()[0] for x in l])

    def spell(self, oid, form):
        if form == "full":
            return self.a.prefix + oid
        if form == "upper":
            return oid.upper()
        if form == "fullupper":
            return self.a.prefix + oid.upper()
        if form == "prefupper":
            return self.a.prefix.upper() + oid
        if form == "mixed":
            return "".join(c.upper() if i % 3 else c
                           for i, c in enumerate(oid))
        return oid

    def pick(self, k):
        return self.order[k % len(self.order)] if self.order else None

    def meta_id(self, refval, body):
        return sha(("<%s>\n%s\n" % (refval, sha(body))).encode())[
            :self.a.idsize]

    def near_id(self, keep, k, s):
        """An identifier which shares so many digits with one there is."""
        ids = list(self.order)
        for no in sorted(self.silo_recs):
            for r in self.silo_recs[no]:
                rid = (r.get("WARC-Record-ID") or "").strip("<>").lower()
                if rid.startswith(self.a.prefix.lower()):
                    rid = rid[len(self.a.prefix):]
                if len(rid) == self.a.idsize and rid not in self.objs:
                    ids.append(rid)
        base = ids[k % len(ids)] if ids else "0" * self.a.idsize
        if k < 0 and self.order:
            base = self.order[-1]
        keep = min(keep, self.a.idsize - 1)
        return (base[:keep] + "%x" % (int(base[keep], 16) ^ (1 + s % 15)) +
                sha(b"near%d" % s))[:self.a.idsize]

    def store_args(self, op):
        """-> (argv, body, expected id or None, obj or None, refused why)"""
        a = self.a
        typ = op.get("t", "resource")
        body = self.resolve(op["c"])
        argv = []
        mime = op.get("mime", "application/octet-stream")
        if "mime" in op:
            argv += ["-m", mime]
        refval = None
        forced = None
        why = None
        if typ == "metadata":
            argv += ["-t", op.get("tspell", "metadata")]
            rid = self.pick(op.get("ref", 0))
            if op.get("badref") or rid is None:
                rid = sha(b"nonexistent%d" % op.get("ref", 0))[:a.idsize]
                if rid not in self.objs:
                    why = "reference does not exist"
            spelled = self.spell(rid, op.get("rform"))
            refval = a.prefix + spelled if len(spelled) == a.idsize \
                else spelled
            argv += ["-r", spelled]
            if op.get("force") is not None:
                f = op["force"]
                if f == "of":
                    forced = self.pick(op.get("ref", 0)) or "0" * a.idsize
                elif isinstance(f, list):
                    forced = self.near_id(*f)
                else:
                    forced = (f * 64)[:a.idsize]
                argv += ["-i", self.spell(forced, op.get("fform"))]
        elif op.get("expl"):
            argv += ["-t", op.get("tspell", "resource")]
        if not body:
            why = "empty"
        if not self.mime_ok(typ, mime):
            why = "mime"
        if why:
            return argv, body, None, None, why
        if typ == "resource":
            oid = sha(body)[:a.idsize]
        elif forced is not None:
            oid = forced.lower()
        else:
            oid = self.meta_id(refval, body)
        ob = Obj(oid, typ, body, mime, refval, 0, 0, forced is not None)
        if forced is not None:
            ob.idspell = self.spell(forced, op.get("fform"))
            if ob.idspell.lower().startswith(a.prefix.lower()):
                ob.idspell = ob.idspell[len(a.prefix):]
        else:
            ob.idspell = oid
        return argv, body, oid, ob, None

    def do_run_store(self, argv, body, op, env=None):
        via = op.get("via", "file")
        if via == "file":
            with open(self.infile, "wb") as f:
                f.write(body)
            return self.a.run("store", *argv, self.infile, env=env)
        if via == "stdin":          # redirected from a file
            with open(self.infile, "wb") as f:
                f.write(body)
            with open(self.infile, "rb") as f:
                return self.a.run("store", *argv, *(
                    ["-"] if op.get("dash") else []), stdin=f, env=env)
        return self.a.run("store", *argv, *(["-"] if op.get("dash") else []),
                          inp=body, chunks=op.get("chunks"), env=env)

    def op_store(self, op):
        a = self.a
        argv, body, oid, ob, why = self.store_args(op)
        big = len(body) > a.max // 2
        known = oid is not None and oid in self.objs
        coll = ob is not None and isinstance(op["c"], dict) and \
            not {"seg", "info", "chain", "rep"}.isdisjoint(op["c"]) and \
            not known and \
            any(e[0] == (oid + "0" * 24)[:24] for e in self.expected_index())
        if coll:
            self.o.label("store:collides")
        c3 = {"C03"} if known or coll else set()
        before = None
        longm = ob is not None and len(ob.mime) > 300
        if why or known or longm:
            before = a.snapshot()
        t0 = self.clock()[0]
        cache = a.cache()
        r = self.do_run_store(argv, body, op)
        t1 = self.clock()[1]
        if r.crashed:
            self.bad({"C01", "C24" if r.sanitizer else "C01"} |
                     c3 | ({"C06"} if big else set()) |
                     ({"C23"} if why else set()), "store failed: %s" % r)
        if longm and r.rc and not r.crashed:
            # it may be refused
            why = "a long mime-type"
        if why:
            self.o.label("refused:" + why.split()[0])
            if r.rc == 0:
                self.bad({"C23", "C22"} if why == "mime" else "C23",
                         "store with %s was not refused: %s" % (why, r))
            if not r.err:
                self.bad("C23", "store refused (%s) without a message" % why)
            d = diff_snap(before, a.snapshot())
            if d:
                self.bad("C23", "a refused store (%s) changed the archive: "
                         "%s" % (why, d))
            return
        if not r.ok:
            self.bad({"C01"} | c3 |
                     ({"C06"} if big else set()), "store failed: %s" % r)
        self.o.label("store:" + ob.type)
        if known:
            self.o.label("store:again")
        m = re.match(rb"^(.*)\n$", r.out)
        printed = m.group(1).decode("latin1") if m else None
        if printed is None:
            self.bad({"C02", "C03"} if known else "C02",
                     "store printed %r" % r.out)
        want = a.prefix + oid
        if printed != want and printed != a.prefix + ob.idspell:
            self.bad({"C02", "C03"} if known else "C02",
                     "store printed %r, the identifier is %r" %
                     (printed, want))
        if known:
            self.objs[oid].again = True
            d = [x for x in diff_snap(before, a.snapshot())
                 if "_.cache" not in x]
            if d:
                self.bad("C03", "storing %s again changed the archive: %s" %
                         (oid, d))
            return
        ob.t0, ob.t1 = t0, t1
        ob.coll = coll
        self.objs[oid] = ob
        self.order.append(oid)
        nbefore = set(self.silo_data)
        frees = {n: a.max - len(d) for n, d in self.silo_data.items()}
        self.sync(newobj=ob, tags=c3)
        # was it put into free space?
        if ob.segmented:
            self.o.label("store:segmented")
        new = sorted(set(self.silo_data) - nbefore)
        if not new:
            self.o.label("store:appended")
        elif not ob.segmented:
            rec = self.silo_recs[new[0]][-1]
            need = rec.blen + 24 + 420 + len(ob.mime)
            # silos before those of the hint have to be full
            for n in range(min(self.hint_base, cache[1]), new[0]):
                if n not in frees:
                    continue
                if not self.silo_mode[n] & 0o200:
                    if n < cache[1]:
                        continue
                    break
                if frees[n] >= need and frees[n] > 64 + len(frees):
                    self.bad("C05", "object of %d bytes compressed got the "
                             "new silo %d, silo %d has %d bytes free" %
                             (rec.blen, new[0], n, frees[n]))

    def op_get(self, op):
        oid = self.pick(op["k"])
        if oid is None:
            return
        ob = self.objs[oid]
        self.check_get(ob, op.get("form"), op.get("o", ""))

    def check_header(self, ob, h, rtxt=""):
        a = self.a
        tg = {"C08"} | ({"C06"} if ob.segmented else set()) | \
            ({"C03"} if ob.again or ob.coll else set())
        d = parse_get_header(h)
        if d is None:
            self.bad(tg, "get shows no WARC header for %s: %r" %
                     (ob.id, h[:300]))
        want = {
            "warc-record-id": "<%s%s>" % (a.prefix, ob.idspell),
            "warc-type": ob.type,
            "content-type": ob.mime,
            "content-length": "%d" % ob.len,
            "warc-block-digest": "sha256:" + sha(ob.body),
        }
        if ob.ref is not None:
            want["warc-refers-to"] = "<%s>" % ob.ref
        for k, v in want.items():
            if d.get(k) != v:
                self.bad(tg | ({"C02"} if k == "warc-record-id" else set()),
                         "header of %s has %s: %r, not %r" %
                         (ob.id, k, d.get(k), v))
        if ob.ref is None and "warc-refers-to" in d:
            self.bad(tg, "header of resource has WARC-Refers-To")
        if "warc-payload-digest" in d and \
                d["warc-payload-digest"] != "sha256:" + sha(ob.body):
            self.bad(tg, "wrong payload digest shown: %s" % d)
        try:
            t = calendar.timegm(time.strptime(d.get("warc-date", ""),
                                              "%Y-%m-%dT%H:%M:%SZ"))
        except ValueError:
            t = -1
        if not ob.t0 - 1 <= t <= ob.t1 + 1:
            self.bad(tg, "date %r of %s is not the UTC time of the store" %
                     (d.get("warc-date"), ob.id))

    def check_get(self, ob, form=None, o=""):
        """o: letters of n o q z"""
        a = self.a
        args = ["get"]
        for c in "nqz":
            if c in o:
                args.append("-" + c)
        if "o" in o:
            if os.path.exists(self.outfile):
                os.unlink(self.outfile)
            args += ["-o", self.outfile]
        args.append(self.spell(ob.id, form))
        r = a.run(*args)
        self.o.label("get")
        tg = {"C01"} | ({"C06"} if ob.segmented else set())
        if ob.coll or ob.again:
            tg.add("C03")
        if "z" in o:
            tg = {"C07"} | ({"C06"} if ob.segmented else set())
        if form not in (None, "", "full"):
            tg = tg | {"C02"}
        if r.crashed or not r.ok:
            self.bad(tg | ({"C24"} if r.sanitizer else set()),
                     "get of a stored object failed: %s" % r)
        if "o" in o:
            with open(self.outfile, "rb") as f:
                body = f.read()
            hdr = r.out
        else:
            body, hdr = r.out, r.err
        if "n" in o:
            if body:
                self.bad("C08", "get -n delivered a body of %d bytes" %
                         len(body))
        elif "z" in o:
            self.o.label("get:z")
            if ob.segmented:
                self.o.label("get:z:segmented")
            if len(body) < 10 or body[:3] != b"\x1f\x8b\x08":
                self.bad(tg, "get -z of %s does not start with a gzip header"
                         % ob.id)
            try:
                un, end, _ = warc.gz_member(body, 0, 1 << 30)
            except warc.Bad as e:
                self.bad(tg, "get -z of %s: %s" % (ob.id, e))
            if end != len(body):
                self.bad(tg, "get -z of %s: %d bytes after the gzip member" %
                         (ob.id, len(body) - end))
            if un != ob.body:
                self.bad(tg, "get -z of %s decompresses to something else" %
                         ob.id)
        elif body != ob.body:
            self.bad(tg, "get of %s delivered %d bytes which are not the %d "
                     "stored (first difference at %s)" %
                     (ob.id, len(body), ob.len, first_diff(body, ob.body)))
        if "q" in o:
            if hdr.startswith(b"WARC/") or b"WARC-Record-ID" in hdr:
                self.bad("C08", "get -q shows a header: %r" % hdr[:200])
        else:
            self.check_header(ob, hdr)

    def op_getall(self, op):
        for oid in list(self.order):
            self.check_get(self.objs[oid], o=op.get("o", ""))

    def op_hk(self, op):
        a = self.a
        before = {e for _, e in warc.read_index(a.sdir)}
        looks = self.lookups(before)
        r = a.run("housekeeping")
        if r.crashed or not r.ok:
            self.bad("C09", "housekeeping failed: %s" % r)
        self.o.label("housekeeping")
        try:
            ents = warc.read_index(a.sdir)
        except warc.Bad as e:
            self.bad("C09", "index after housekeeping: %s" % e)
        self.since.add("hk")
        files = {f for f, _ in ents}
        if files - {"sorted"}:
            self.bad("C09", "after housekeeping there are entries in %s" %
                     files)
        for f in ("hold", "housekeep", "appendix"):
            if os.path.exists(os.path.join(a.sdir, "index." + f)) and (
                    f != "appendix" or os.path.getsize(
                        os.path.join(a.sdir, "index." + f))):
                self.bad("C09", "housekeeping left index.%s behind" % f)
        l = [e for _, e in ents]
        if set(l) != before:
            self.bad("C09", "housekeeping changed the set of entries: lost "
                     "%s, new %s" % (sorted(before - set(l))[:4],
                                     sorted(set(l) - before)[:4]))
        if len(l) != len(set(l)):
            self.bad("C09", "housekeeping left duplicate entries")
        if l != sorted(l):
            self.bad("C09", "the index is not sorted")
        self.idx_dup_ok = False
        if self.lookups(before) != looks:
            self.bad("C09", "a lookup gives another answer after "
                     "housekeeping")
        self.sync()

    def lookups(self, ents):
        """Results of some partial lookups, without duplicates."""
        keys = sorted({e[0] for e in ents})
        if not keys:
            return None
        res = []
        for k in (keys[0], keys[-1], keys[len(keys) // 2][:2], keys[-1][:1]):
            r = self.a.run("dumpindex", k)
            res.append((r.rc, sorted(set(r.out.splitlines()))))
        return res

    def op_reindex(self, op):
        a = self.a
        self.sync()
        mode = op.get("mode", "full")
        nums = sorted(self.silo_data)
        if mode != "again":
            for f in ("appendix", "sorted", "housekeep"):
                try:
                    os.unlink(os.path.join(a.sdir, "index." + f))
                except OSError:
                    pass
            if op.get("cache", 1):
                try:
                    os.unlink(os.path.join(a.sdir, "_.cache"))
                except OSError:
                    pass
        else:
            self.idx_dup_ok = True
        runs = [[]]
        # without arguments it stops at the first directory which is missing
        reach = self.reachable()
        if mode == "args" or mode == "groups" or set(nums) - reach:
            rng = random.Random("re%d" % op.get("s", 0))
            fns = [a.silo_fn(n) for n in nums]
            rng.shuffle(fns)
            if op.get("rel"):
                fns = [os.path.relpath(f, a.dir) for f in fns]
            runs = [fns]
            if mode == "groups":
                runs = self.groups(nums, rng, op.get("parts", 2))
        if mode == "again" and op.get("parts", 0) > 1:
            # some of them, on top of a complete index
            rng = random.Random("rs%d" % op.get("s", 0))
            runs = [[a.silo_fn(n) for n in rng.sample(
                nums, rng.randint(min(1, len(nums)), len(nums)))]
                for _ in range(op["parts"] - 1)]
        for args in runs:
            if runs != [[]] and not args:
                continue
            r = a.run("reindex", *args)
            if r.crashed or not r.ok:
                self.bad("C11", "reindex failed: %s" % r)
        self.o.label("reindex:" + mode)
        self.since.add("reindex")
        self.check_index({"C11"})
        self.sync()

    def reachable(self):
        res, n = set(), 0
        while n < 30000:
            d = os.path.join(self.a.sdir, warc.silo_path(n))
            if not os.path.isdir(d):
                break
            if os.path.exists(self.a.silo_fn(n)):
                res.add(n)
            n += 1
        return res

    def groups(self, nums, rng, k):
        """Partition of the silos, those of one object together."""
        par = {n: n for n in nums}

        def find(n):
            while par[n] != n:
                n = par[n]
            return n
        byorig = {}
        for n in nums:
            for r in self.silo_recs[n]:
                if r.segno is not None:
                    o = r.get("WARC-Segment-Origin-ID") or \
                        r.get("WARC-Record-ID")
                    byorig.setdefault(o.lower(), []).append(n)
        for l in byorig.values():
            for n in l[1:]:
                par[find(n)] = find(l[0])
        g = {}
        for n in nums:
            g.setdefault(find(n), []).append(self.a.silo_fn(n))
        runs = [[] for _ in range(max(1, k))]
        for f in g.values():
            runs[rng.randrange(len(runs))] += f
        for x in runs:
            rng.shuffle(x)
        return runs

    def op_cache(self, op):
        fn = os.path.join(self.a.sdir, "_.cache")
        how = op.get("how", "rm")
        if how == "rm":
            if os.path.exists(fn):
                os.unlink(fn)
        elif how == "zero":
            with open(fn, "wb") as f:
                f.write(b"\0" * 8)
        elif how == "short":
            with open(fn, "wb") as f:
                f.write(b"\0\0\0\1\0")
        elif how == "save":
            self.saved_cache = open(fn, "rb").read() \
                if os.path.exists(fn) else None
            self.saved_base = self.hint_base
        elif how == "restore":
            s = getattr(self, "saved_cache", None)
            if s is not None:
                with open(fn, "wb") as f:
                    f.write(s)
                self.hint_base = max(self.hint_base, self.saved_base)
        elif how == "ahead":        # hints too large
            c = self.a.cache()
            with open(fn, "wb") as f:
                f.write((c[0] + op.get("n", 3)).to_bytes(4, "big") +
                        (c[1] + op.get("n", 3)).to_bytes(4, "big"))
        elif how == "space":
            c = self.a.cache()
            with open(fn, "wb") as f:
                f.write(c[0].to_bytes(4, "big") +
                        (c[1] + op.get("n", 1)).to_bytes(4, "big"))
        if how in ("rm", "zero", "short"):
            self.hint_base = 0
        elif how in ("ahead", "space"):
            self.hint_base = 1 << 40    # until it is lost
        self.since.add("cache")
        self.o.label("cache:" + how)

    def op_ro(self, op):
        """Write-protects the silos below a number, as is documented."""
        nums = sorted(self.silo_data)
        if not nums:
            return
        self.since.add("ro")
        if op.get("one") is not None:
            l = [nums[op["one"] % len(nums)]]
        else:
            l = nums[:1 + op.get("n", 0) % len(nums)]
        for n in l:
            os.chmod(self.a.silo_fn(n), 0o440)
            self.silo_mode[n] = 0o440
        self.o.label("write-protect")

    def op_rw(self, op):
        for n in sorted(self.silo_data):
            os.chmod(self.a.silo_fn(n), 0o640)
            self.silo_mode[n] = 0o640

    def clock(self):
        """-> (earliest, latest) time it may be for the program"""
        t = self.a.env.get("VERIF_TIME")
        if t is None:
            return (int(time.time()),) * 2
        t, _, n = t.partition("+")
        return int(t), int(t) + 500 * int(n or 0)

    def op_clock(self, op):
        """From now on it is that time, and every look at the clock takes n
        seconds."""
        if op["t"] is None:
            self.a.env.pop("VERIF_TIME", None)
        else:
            self.a.env["VERIF_TIME"] = "%d%s" % (
                op["t"], "+%d" % op["n"] if op.get("n") else "")
        self.o.label("clock")

    def op_maxsize(self, op):
        # what was full before need not be so with the new limit
        self.hint_base = max(self.hint_base, self.a.cache()[1])
        self.a.set_max(op["v"])
        self.max_seen = max(self.max_seen, op["v"])
        self.since.add("maxsize")
        self.o.label("maxsize")

    def op_tune(self, op):
        """Sets the limit so that full segments get n + d bytes."""
        segs = [r for l in self.silo_recs.values() for r in l
                if r.segno == 1]
        if not segs:
            return
        r = segs[-1]
        last = max((n, r.end - r.off, r.blen) for n in self.silo_recs
                   for r in self.silo_recs[n] if r.segno == 1)
        v = self.a.max + op["n"] + op["d"] - last[2]
        if 5000 < v < 3000000:
            self.op_maxsize({"v": v})

    def op_mksilo(self, op):
        a = self.a
        n = op["n"]
        taken = os.path.exists(a.silo_fn(n))
        before = a.snapshot()
        r = a.run("mksilo", op.get("spell", "%d") % n)
        self.nmk = getattr(self, "nmk", 0) + 1
        self.o.label("mksilo" + (":taken" if taken else ""))
        if r.crashed:
            self.bad("C25", "mksilo failed: %s" % r)
        if taken:
            if r.rc == 0:
                self.bad({"C25", "C23"}, "mksilo of a taken number: %s" % r)
            d = diff_snap(before, a.snapshot())
            if d:
                self.bad({"C25", "C23"}, "refused mksilo changed the archive"
                         ": %s" % d)
            return
        if r.rc != 0:
            self.bad("C25", "mksilo %d failed: %s" % (n, r))
        if not os.path.isfile(a.silo_fn(n)):
            self.bad("C25", "mksilo %d made no silo at %s" %
                     (n, os.path.relpath(a.silo_fn(n), a.sdir)))
        self.since.add("mksilo")
        self.hint_base = max(self.hint_base, a.cache()[1])
        self.made.add(n)
        self.sync(tags={"C25"})
        if len(self.silo_recs.get(n, [])) != 1:
            self.bad("C25", "the silo made has %d records" %
                     len(self.silo_recs.get(n, [])))

    def op_at(self, op):
        """A store which must put its object in silo n, a new one."""
        a = self.a
        n = op["n"]
        if os.path.exists(a.silo_fn(n)):
            return
        with open(os.path.join(a.sdir, "_.cache"), "wb") as f:
            f.write(n.to_bytes(4, "big") * 2)
        self.hint_base = 1 << 40
        self.since.add("cache")
        nobj = len(self.order)
        self.op_store(op)
        self.o.label("store:at")
        if len(self.order) == nobj:
            return
        ob = self.objs[self.order[-1]]
        if not ob.segmented and n not in self.silo_data:
            self.bad("C25", "an object for silo %d did not go there" % n)
        self.check_get(ob)

    def op_dirs(self, op):
        """Makes the directories of the silos below a number."""
        a = self.a
        n = op["n"]
        u = 0
        while u < n:
            os.makedirs(os.path.join(a.sdir, warc.silo_path(u)),
                        exist_ok=True)
            u += 100

    def op_visit(self, op):
        """What reindex, audit and rebuild visit without arguments."""
        a = self.a
        self.sync()
        reach = self.reachable()
        self.o.label("visit:reached", len(reach))
        self.o.label("visit:not", len(self.silo_data) - len(reach))
        if op["what"] == "audit":
            r = a.run("audit", "-i", "ignore-metadata-record-id")
            if r.crashed:
                self.bad({"C25", "C13"}, "audit: %s" % r)
            want = sum(len(self.silo_recs[n]) for n in reach)
            got = [int(x) for x in re.findall(rb"^(\d+) good \d+ bad", r.out,
                                              re.M)]
            if len(got) != len(reach) or sum(got) != want:
                self.bad({"C25", "C13"}, "audit without arguments examined "
                         "%d records in %d silos, there are %d in the %d "
                         "below the first missing directory: %s" %
                         (sum(got), len(got), want, len(reach), r))
        elif op["what"] == "rebuild":
            before = set(a.snapshot())
            r = a.run("rebuild")
            if r.crashed or not r.ok:
                self.bad({"C25", "C18"}, "rebuild: %s" % r)
            new = set(a.snapshot()) - before
            want = {os.path.relpath(a.silo_fn(n), a.sdir) + "_"
                    for n in reach}
            if new != want:
                self.bad({"C25", "C18"}, "rebuild without arguments made %s "
                         "but not %s" % (sorted(new - want)[:5],
                                         sorted(want - new)[:5]))
            for n in reach:
                os.unlink(a.silo_fn(n) + "_")
        else:
            save = {}
            for f in ("appendix", "sorted"):
                fn = os.path.join(a.sdir, "index." + f)
                if os.path.exists(fn):
                    with open(fn, "rb") as fh:
                        save[fn] = fh.read()
                    os.unlink(fn)
            r = a.run("reindex")
            # segments may be out of reach of one another
            got = {e[:4] for _, e in warc.read_index(a.sdir)}
            want = {e[:4] for e in self.expected_index()
                    if e[2] in reach and not e[1] & warc.F_SEG}
            rest = {e[:4] for e in self.expected_index()
                    if e[2] in reach}
            if r.crashed or not want <= got or not got <= rest:
                self.bad({"C25", "C11"}, "reindex without arguments: missing "
                         "%s, too many %s: %s" %
                         (sorted(want - got)[:3], sorted(got - rest)[:3], r))
            for f in ("appendix", "sorted"):
                fn = os.path.join(a.sdir, "index." + f)
                if os.path.exists(fn):
                    os.unlink(fn)
            for fn in save:
                with open(fn, "wb") as f:
                    f.write(save[fn])
        self.sync()

    def op_audit(self, op):
        a = self.a
        self.sync()
        if not self.silo_data:
            return
        args = []
        nums = sorted(self.silo_data)
        forced = [o for o in self.objs.values() if o.forced]
        upper = [o for o in forced if o.idspell != self.meta_id(
            o.ref, o.body)]
        if upper:
            args += ["-i", "ignore-metadata-record-id"]
        sel = nums
        if op.get("args") or set(nums) - self.reachable():
            rng = random.Random("au%d" % op.get("s", 0))
            sel = list(nums)
            rng.shuffle(sel)
            fns = [a.silo_fn(n) for n in sel]
            if op.get("rel"):
                fns = [os.path.relpath(f, a.dir) for f in fns]
            args += fns
        r = a.run("audit", *args)
        self.o.label("audit")
        if r.crashed or not r.ok:
            self.bad("C13", "audit of a sound archive failed: %s" % r)
        self.judge_audit(r, sel)

    def judge_audit(self, r, sel):
        good = bad = nsilo = 0
        for m in re.finditer(rb"^(\d+) good (\d+) bad", r.out, re.M):
            good += int(m.group(1))
            bad += int(m.group(2))
            nsilo += 1
        want = sum(len(self.silo_recs[n]) for n in sel)
        if b"ERROR" in r.out or bad or b"pending" in r.out:
            self.bad("C13", "audit reports errors in a sound archive: %s" % r)
        if good != want or nsilo != len(sel):
            self.bad("C13", "audit found %d good records in %d silos, there "
                     "are %d in %d: %s" % (good, nsilo, want, len(sel), r))

    def op_filter(self, op):
        """lines: list of [kind, k, form, trailer]"""
        a = self.a
        lines, want = [], []
        for ln in op["lines"]:
            kind, k, form = ln[0], ln[1], ln[2]
            trail = ln[3] if len(ln) > 3 else ""
            if kind == "in" and self.order:
                oid = self.pick(k)
            elif kind == "near" and self.order:
                # differs from a stored one in one digit
                oid = self.pick(k)
                p = ln[4] % len(oid)
                oid = oid[:p] + HEX[(HEX.index(oid[p]) + 1 + k % 14) % 16] + \
                    oid[p + 1:]
            elif kind == "hi":
                oid = "f" * a.idsize
            elif kind == "lo":
                oid = "0" * a.idsize
            elif kind == "rec" and self.silo_recs:
                # of any record, also segments and warcinfo
                rr = self.silo_recs[sorted(self.silo_recs)[
                    k % len(self.silo_recs)]]
                oid = rr[k % len(rr)].get("WARC-Record-ID").rsplit(
                    "/", 1)[1][:-1].lower()
            else:
                oid = sha(b"out%d" % k)[:a.idsize]
            lines.append(self.spell(oid, form) + trail)
            want.append(oid)
        if not op.get("s"):
            # without -s only the part in the index counts
            n = min(24, a.idsize)
            ik = {k[:n] for k in self.objs}
            pres = [w[:n] in ik for w in want]
        else:
            pres = [w in self.objs for w in want]
        v, rflag = op.get("v"), op.get("r")
        exp = []
        for l, p in zip(lines, pres):
            if v:
                exp.append("%d %s" % (p, l))
            elif bool(rflag) == p:
                exp.append(l)
        args = []
        if v:
            args.append("-v")
        if rflag:
            args.append("-r")
        if op.get("s"):
            args.append("-s")
        if op.get("sort"):
            z = sorted(zip(want, lines))
            pass
        of = None
        if op.get("of"):
            of = os.path.join(self.box, "fout")
            args += ["-o", of]
        nf = op.get("files", 0)
        text = "".join(l + "\n" for l in lines)
        if nf == 0:
            r = a.run("filter", *args, inp=text.encode("latin1"))
        else:
            cuts = [len(lines) * i // nf for i in range(nf + 1)]
            inp = b""
            for i in range(nf):
                t = "".join(l + "\n" for l in lines[cuts[i]:cuts[i + 1]])
                if i == op.get("dash", -1):
                    args.append("-")
                    inp = t.encode("latin1")
                else:
                    fn = os.path.join(self.box, "f%d" % i)
                    with open(fn, "wb") as f:
                        f.write(t.encode("latin1"))
                    args.append(fn)
            r = a.run("filter", *args, inp=inp)
        self.o.label("filter")
        self.o.label("filter:lines", len(lines))
        if r.crashed or not r.ok:
            self.bad("C12", "filter failed: %s" % r)
        out = r.out
        if of:
            out = open(of, "rb").read()
        got = out.decode("latin1").split("\n")
        if got[-1:] == [""]:
            got.pop()
        if got != exp:
            for i in range(max(len(got), len(exp))):
                x = got[i] if i < len(got) else None
                y = exp[i] if i < len(exp) else None
                if x != y:
                    break
            self.bad("C12", "filter %s of %d lines: output line %d is %r, "
                     "should be %r (%d lines, should be %d)" %
                     (args, len(lines), i, x, y, len(got), len(exp)))

    def op_byid(self, op):
        """Partial lookups: keys = list of [k, digits, form, delta]"""
        a = self.a
        ents = [e for _, e in warc.read_index(a.sdir)]
        if not ents:
            return
        ents.sort()
        args = []
        pats = []
        for q in op["keys"]:
            e = ents[q[0] % len(ents)]
            s = e[0][:min(24, a.idsize)]
            n = q[1]
            if q[3]:
                v = int(s[:n] or "0", 16) + q[3]
                if n and 0 <= v < 16 ** n:
                    s = "%0*x" % (n, v)
            s = s[:n]
            if n > len(s) and not q[3]:
                s = (s + "0" * 40)[:n]
                # beyond what the index has, only that part counts
            pats.append(s)
            args.append(s.upper() if q[2] in ("upper", "fullupper") else s)
        want = []
        for s in pats:
            want += [e for e in ents if e[0].startswith(s[:24])]
        if op.get("dump"):
            t = op.get("type")
            x = ["-t", t] if t else []
            if not args:
                want = list(ents)
            if t:
                bit = {"metadata": 8, "resource": 4, "warcinfo": 2}[t]
                want = [e for e in want if e[1] & bit]
            r = a.run("dumpindex", *x, *args)
            if r.crashed or not r.ok:
                self.bad("C10", "dumpindex failed: %s" % r)
            got = []
            for ln in r.out.decode().splitlines():
                w = ln.split()
                got.append((w[0], int(w[1], 16), int(w[2]), int(w[3]), w[4]))
            if sorted(got) != sorted(want):
                self.bad("C10", "dumpindex %s reports %d entries, not %d: %s"
                         % (args, len(got), len(want),
                            sorted(set(want) ^ set(got))[:3]))
        else:
            pre = []
            for i, s in enumerate(args):
                if op["keys"][i][2] in ("full", "fullupper"):
                    args[i] = a.prefix + s
            if op.get("rep") and want:
                # enough arguments for about that number of matches
                m = -(-op["rep"] // len(want))
                args, want = args * m, want * m
            if op.get("e"):
                pre = ["-e"]
            r = a.run("byid", *pre, *args)
            if r.crashed:
                self.bad("C10", "byid failed: %s" % r)
            exp = []
            for e in want:
                rec = self.rec_at(e[2], e[3])
                exp.append("id %s wt %s" % (
                    rec.get("WARC-Record-ID").rsplit("/", 1)[1][:-1],
                    rec.type))
            got = r.out.decode("latin1").splitlines()
            if sorted(got) != sorted(exp):
                self.bad("C10", "byid %s reports %s, should be %s" %
                         (args, sorted(got)[:6], sorted(exp)[:6]))
            st = 0 if op.get("e") else min(255, len(exp))
            if r.rc != st:
                self.bad("C10", "byid %s found %d, exit status is %d" %
                         (args, len(exp), r.rc))
        self.o.label("lookup")
        self.o.label("lookup:hits", len(want))

    def rec_at(self, silo, off):
        for r in self.silo_recs[silo]:
            if r.off == off:
                return r
        return None

    def op_cgi(self, op):
        a = self.a
        oid = self.pick(op["k"])
        if oid is None:
            return
        ob = self.objs[oid]
        path = ("/" if op.get("slash", 1) else "") + \
            self.spell(oid, op.get("form"))
        env = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET",
               "PATH_INFO": path}
        ae = op.get("ae")
        if ae is not None:
            env["HTTP_ACCEPT_ENCODING"] = ae
        r = a.run("cgi", env=env)
        self.o.label("cgi")
        if r.crashed or not r.ok:
            self.bad("C19", "cgi failed: %s" % r)
        head, sep, body = r.out.partition(b"\n\n")
        h = {}
        for ln in head.split(b"\n"):
            n, s, v = ln.partition(b":")
            if not s:
                self.bad("C19", "cgi header line %r" % ln)
            h[n.strip().lower().decode()] = v.strip().decode("latin1")
        if h.get("status", "200").split()[0] != "200":
            self.bad("C19", "cgi answers %s for a stored object %s" % (h, path))
        if h.get("content-type") != ob.mime:
            self.bad("C19", "cgi content type %r, mime-type is %r" %
                     (h.get("content-type"), ob.mime))
        if h.get("content-length") != "%d" % len(body):
            self.bad("C19", "cgi content length %r, there are %d bytes" %
                     (h.get("content-length"), len(body)))
        ce = h.get("content-encoding")
        if ce is not None:
            self.o.label("cgi:gzip")
            if ce != "gzip" or not accepts_gzip(ae):
                self.bad("C19", "cgi content encoding %r, accepted %r" %
                         (ce, ae))
            if ob.segmented:
                self.bad("C19", "cgi delivers a segmented object gzip-encoded")
            try:
                un, end, _ = warc.gz_member(body, 0, 1 << 30)
            except warc.Bad as e:
                self.bad("C19", "cgi gzip body: %s" % e)
            if end != len(body):
                self.bad("C19", "cgi: rubbish after the gzip body")
            body = un
        if body != ob.body:
            self.bad("C19", "cgi delivers %d bytes which are not the object "
                     "of %d" % (len(body), ob.len))

    def op_cgibad(self, op):
        """A request which must not be answered with an object."""
        a = self.a
        oid = self.pick(op["k"]) or "0" * a.idsize
        env = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET",
               "PATH_INFO": "/" + oid, "HTTP_ACCEPT_ENCODING": "gzip"}
        how = op["how"]
        n = op.get("n", 0)
        if how == "chop":
            p = oid[:n % a.idsize]
        elif how == "near":
            q = n % a.idsize
            p = oid[:q] + HEX[(HEX.index(oid[q]) + 1 + n % 14) % 16] + \
                oid[q + 1:]
            if p in self.objs:
                return
        elif how == "unknown":
            p = sha(b"cgi%d" % n)[:a.idsize]
        elif how == "longer":
            p = oid + op.get("tail", "0")
        elif how == "lead":
            p = op.get("tail", "/") + oid
        elif how == "nohex":
            q = n % a.idsize
            p = oid[:q] + "gG-_ .%"[n % 7] + oid[q + 1:]
        elif how == "prefix":
            p = a.prefix + op.get("tail", "")
        elif how == "otherprefix":
            p = ("x" + a.prefix if n % 2 else a.prefix[:-1]) + oid
        elif how in ("warcinfo", "segment"):
            l = [r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1].lower()
                 for rr in self.silo_recs.values() for r in rr
                 if r.type == {"warcinfo": "warcinfo",
                               "segment": "continuation"}[how]]
            l = [x for x in l if x not in self.objs]
            if not l:
                return
            p = l[n % len(l)]
        else:
            p = oid
            if how == "silo":
                nums = sorted(self.silo_data)
                p = os.path.relpath(a.silo_fn(nums[n % len(nums)]), a.sdir) \
                    if nums else "0/x"
            elif how == "absolute":
                p = a.cfgfn
        env["PATH_INFO"] = ("/" if op.get("slash", 1) else "") + p
        args = ["cgi"]
        refused = False
        if how == "method":
            refused = True
            m = [None, "HEAD", "POST", "PUT", "DELETE", "get", "", "GETX"][
                n % 8]
            if m is None:
                del env["REQUEST_METHOD"]
            else:
                env["REQUEST_METHOD"] = m
        elif how == "iface":
            refused = True
            m = [None, "", "CGI/1.0", "CGI", "HTTP/1.1"][n % 5]
            if m is None:
                del env["GATEWAY_INTERFACE"]
            else:
                env["GATEWAY_INTERFACE"] = m
        elif how == "nopath":
            refused = True
            del env["PATH_INFO"]
        elif how == "args":
            refused = True
            args = ["cgi", oid]
        before = a.snapshot()
        r = a.run(*args, env=env)
        self.o.label("cgi:" + ("refused" if refused else "error"))
        what = {k: env.get(k) for k in ("GATEWAY_INTERFACE",
                                        "REQUEST_METHOD", "PATH_INFO")}
        if r.hung or r.sanitizer or r.rc < 0:
            self.bad("C19", "cgi request %s crashed: %s" % (what, r))
        d = diff_snap(before, a.snapshot())
        if d:
            self.bad({"C19", "C23"}, "cgi changed the archive: %s" % d)
        if refused and r.rc == 0:
            self.bad({"C19", "C23"}, "cgi request %s was not refused: %s" %
                     (what, r))
        head, sep, body = r.out.partition(b"\n\n")
        st = re.search(rb"^Status:\s*(\d+)", head, re.M)
        if not refused and (st is None or st.group(1)[:1] in b"123"):
            self.bad("C19", "cgi answers %s for %s: %s" %
                     (st and st.group(1), what, r))
        for ob in self.objs.values():
            if ob.len >= 24 and (ob.body in r.out or
                                 ob.body[:200] in r.out):
                self.bad("C19", "the answer to %s contains object %s" %
                         (what, ob.id))
        if b"\x1f\x8b\x08" in r.out:
            self.bad("C19", "the answer to %s contains gzip data" % what)

    def op_rbcut(self, op):
        """Rebuild of a silo which is cut off must fail."""
        a = self.a
        self.sync()
        nums = sorted(self.silo_data)
        if not nums:
            return
        rng = random.Random("cut%d" % op.get("s", 0))
        n = rng.choice(nums)
        d = self.silo_data[n]
        recs = self.silo_recs[n]
        r = rng.choice(recs)
        k = rng.choice([r.off + r.hlen, r.end - 1, r.end - 10,
                        r.off + rng.randint(1, 12), r.off + 1,
                        r.bodyoff + rng.randint(1, 12), r.bodyoff + r.blen,
                        r.bodyoff + r.blen - rng.randint(1, 9),
                        rng.randrange(1, len(d)), rng.randrange(1, len(d))])
        if k <= 0 or k >= len(d) or k in [x.off for x in recs]:
            return
        fn = a.silo_fn(n)
        os.chmod(fn, 0o644)
        with open(fn, "r+b") as f:
            f.truncate(k)
        r = a.run("rebuild", fn)
        with open(fn, "rb") as f:
            if f.read() != d[:k]:
                self.bad("C18", "rebuild changed silo %d" % n)
        self.o.label("rebuild cut")
        with open(fn, "wb") as f:
            f.write(d)
        os.chmod(fn, self.silo_mode[n])
        try:
            os.unlink(fn + "_")
        except OSError:
            pass
        if r.hung or r.sanitizer or r.rc == 0:
            self.bad("C18", "rebuild of silo %d, cut off at %d of %d: %s" %
                     (n, k, len(d), r))

    def op_rbold(self, op):
        """Rebuild of records with the digest field of an early version,
        which gets replaced together with the identifier."""
        a = self.a
        self.sync()
        if not self.silo_recs:
            return
        rng = random.Random("old%d" % op.get("s", 0))
        n = max(self.silo_recs) + 3
        now = "2023-11-14T22:13:20Z"
        tail = rng.randbytes(a.idsize)
        recs = []
        for i in range(rng.choice([3, 5, 12, 20])):
            ln = rng.choice([1, 2, 100, 8191, 8192, rng.randint(1, 8192),
                             rng.randint(7000, 8192)])
            body = rng.randbytes(ln) if rng.random() < .8 else b"x" * ln
            old = rng.random() < .6
            t = "resource"
            if not i:
                body, t, old = b"title: x\r\n", "warcinfo", False
            h = sha(body)
            f = [("WARC-Record-ID", "<%s%s>" % (
                    a.prefix, h[:a.idsize])),
                 ("WARC-Type", t),
                 ("WARC-Date", now), ("Content-Type", "text/plain"),
                 ("Content-Length", "%d" % len(body))]
            new = f + [("WARC-Block-Digest", "sha256:" + h)]
            if old:
                if rng.random() < .5:
                    f.append(("Content-Length-GZIP", "%d" % (ln + 100)))
                f.append(("WARC-Record-Digest", rng.choice(
                    ["sha256:" + h, h, "sha1:ABC"])))
                del f[0]
                rng.shuffle(f)
                f.insert(0, ("WARC-Record-ID", "<%s%s>" % (
                    a.prefix, sha(tail + body)[:a.idsize])))
            else:
                f = new
            recs.append((damage.encode(f, body), body, new))
        fn = a.silo_fn(n)
        if os.path.exists(fn):
            return
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "wb") as f:
            f.write(b"".join(x[0] for x in recs))
        r = a.run("rebuild", fn)
        os.unlink(fn)
        self.o.label("rebuild old")
        if not r.ok or not os.path.exists(fn + "_"):
            self.bad("C18", "rebuild of records with WARC-Record-Digest "
                     "failed: %s" % r)
        with open(fn + "_", "rb") as f:
            d = f.read()
        os.unlink(fn + "_")
        try:
            got = warc.parse_silo(d)
        except warc.Bad as e:
            self.bad("C18", "rebuilt silo of old records is not "
                     "well-formed: %s" % e)
        if len(got) != len(recs):
            self.bad("C18", "rebuilt silo of old records has %d records, "
                     "not %d" % (len(got), len(recs)))
        for x, (_, body, new) in zip(got, recs):
            if x.body != body or x.errs:
                self.bad("C18", "rebuilt old record at %d has another body: "
                         "%s" % (x.off, x.errs))
            fx = {(k.lower(), v) for k, v in x.fields}
            fy = {(k.lower(), v) for k, v in new}
            if fx != fy:
                self.bad("C18", "rebuilt old record at %d has other header "
                         "fields: %s" % (x.off, sorted(fx ^ fy)))

    def op_rebuild(self, op):
        a = self.a
        self.hint_base = max(self.hint_base, a.cache()[1])
        self.sync()
        nums = sorted(self.silo_data)
        if not nums:
            return
        args = []
        if op.get("args") or set(nums) - self.reachable():
            fns = [a.silo_fn(n) for n in nums]
            random.Random("rb%d" % op.get("s", 0)).shuffle(fns)
            args = fns
        before = a.snapshot()
        if op.get("over"):
            # left behind by an interrupted rebuild
            for n in nums:
                with open(a.silo_fn(n) + "_", "wb") as f:
                    f.write(b"\37\213x" * (
                        1 if op["over"] == 1 else
                        400 + len(self.silo_data[n]) // 3))
        r = a.run("rebuild", *args)
        self.o.label("rebuild")
        if r.crashed or not r.ok:
            self.bad({"C18"} | ({"C24"} if r.sanitizer else set()),
                     "rebuild failed: %s" % r)
        after = a.snapshot()
        for k in before:
            if after.get(k) != before[k]:
                self.bad("C18", "rebuild changed %s" % k)
        extra = set(after) - set(before)
        wantnew = {os.path.relpath(a.silo_fn(n), a.sdir) + "_" for n in nums}
        if extra != wantnew:
            self.bad("C18", "rebuild made %s, should make %s" %
                     (sorted(extra)[:5], sorted(wantnew)[:5]))
        for n in nums:
            d = after[os.path.relpath(a.silo_fn(n), a.sdir) + "_"][0]
            try:
                recs = warc.parse_silo(d)
            except warc.Bad as e:
                self.bad("C18", "rebuilt silo %d is not well-formed: %s" %
                         (n, e))
            old = self.silo_recs[n]
            if len(recs) != len(old):
                self.bad("C18", "rebuilt silo %d has %d records, not %d" %
                         (n, len(recs), len(old)))
            for x, y in zip(recs, old):
                if x.errs:
                    self.bad("C18", "rebuilt record in silo %d: %s" %
                             (n, x.errs))
                if x.body != y.body:
                    self.bad("C18", "rebuilt record at %d in silo %d has "
                             "another body" % (x.off, n))
                fx = {(k.lower(), v) for k, v in x.fields}
                fy = {(k.lower(), v) for k, v in y.fields
                      if k.lower() not in ("z", "content-length-gzip")}
                if fx != fy:
                    self.bad("C18", "rebuilt record at %d in silo %d has "
                             "other header fields: %s" %
                             (x.off, n, sorted(fx ^ fy)))
        if op.get("replace"):
            for n in nums:
                os.chmod(a.silo_fn(n) + "_", self.silo_mode[n])
                os.rename(a.silo_fn(n) + "_", a.silo_fn(n))
            for f in ("appendix", "sorted", "housekeep"):
                try:
                    os.unlink(os.path.join(a.sdir, "index." + f))
                except OSError:
                    pass
            self.silo_data = {}
            self.silo_recs = {}
            r = a.run("reindex", *(a.silo_fn(n) for n in nums
                                   if set(nums) - self.reachable()))
            self.since.add("rebuild")
            if not r.ok:
                self.bad("C18", "reindex after rebuild failed: %s" % r)
            self.sync(tags={"C18"})
            self.op_getall({})
            self.retag(self.op_audit, {"C18"})
        else:
            for n in nums:
                os.unlink(a.silo_fn(n) + "_")

    def retag(self, func, tags):
        ob = self.bad

        def bad(t, msg, stop=True):
            ob(set([t] if isinstance(t, str) else t) | tags, msg, stop)
        self.bad = bad
        try:
            func({})
        finally:
            del self.bad

    def subs(self, k):
        a = self.a
        oid = self.pick(k) or "0" * a.idsize
        q = k % a.idsize
        nums = sorted(self.silo_data)
        no = nums[k % len(nums)] if nums else 0

        def rids(t):
            l = [r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1].lower()
                 for rr in self.silo_recs.values() for r in rr
                 if r.type == t]
            l = sorted(x for x in l if x not in self.objs)
            return l[k % len(l)] if l else sha(b"none" + t.encode())[:a.idsize]
        return {"%ID": oid, "%IN": self.infile, "%BOX": self.box,
                "%NO": sha(b"no such object %d" % k)[:a.idsize],
                "%LONG": oid + "0", "%SHORT": oid[:-1], "%PFX": a.prefix,
                "%CHOP": oid[:q], "%NHEX": oid[:q] + "g" + oid[q + 1:],
                "%WI": rids("warcinfo"), "%SEG": rids("continuation"),
                "%TAKEN": "%d" % no, "%SILO": a.silo_fn(no),
                "%CONF": a.cfgfn}

    def op_bad(self, op):
        """A request which must be refused."""
        a = self.a
        if not self.silo_data:
            return
        args = list(op["args"])
        if "forbidden/type" in args and self.mime_ok(
                "metadata" if "metadata" in args else "resource",
                "forbidden/type"):
            return
        inp = bytes.fromhex(op.get("inp", ""))
        with open(self.infile, "wb") as f:
            f.write(bytes.fromhex(op.get("file", "736f6d6520696e7075740a")))
        sub = self.subs(op.get("k", 0))
        args = [subst(x, sub) for x in args]
        inp = subst(inp.decode("latin1"), sub).encode("latin1")
        before = a.snapshot()
        r = a.run(*args, inp=inp, env=op.get("env"),
                  cfg=not op.get("nocfg"))
        self.o.label("refused")
        tg = {"C23"}
        if args and args[0] in ("byid", "dumpindex"):
            tg.add("C10")
        if args and args[0] == "mksilo":
            tg.add("C25")
        if "-m" in args:
            tg.add("C22")
        if r.hung or r.sanitizer or r.rc in (-11, -7, -4, -8):
            self.bad(tg, "request to be refused crashed: %s" % r)
        if r.rc == 0:
            self.bad(tg, "request was not refused: %s" % r)
        if not r.err and not r.out:
            self.bad(tg, "refused without a message: %s" % r)
        d = diff_snap(before, a.snapshot())
        if d:
            self.bad(tg, "refused request %s changed the archive: %s" %
                     (args, d))

    def op_info(self, op):
        r = self.a.run("info")
        j = self.a.run("-j", "info")
        if r.rc or j.rc or b"%d" % self.a.idsize not in r.out or \
                b"%d" % self.a.idsize not in j.out:
            self.bad({"C22", "C23"}, "info: %s %s" % (r, j))

    def op_missing(self, op):
        """Looking for what is not there finds nothing and says so."""
        oid = sha(b"missing%d" % op["k"])[:self.a.idsize]
        r = self.a.run("get", oid)
        if r.rc == 0 or r.out or not r.err or r.rc < 0:
            self.bad({"C23", "C01"}, "get of an unknown identifier: %s" % r)
        r = self.a.run("byid", oid)
        if r.rc or r.out:
            self.bad({"C23", "C10"}, "byid of an unknown identifier: %s" % r)

    def op_read(self, op):
        """Any reading operation: the archive must not change."""
        before = self.a.snapshot()
        sub = dict(op["do"])
        getattr(self, "op_" + sub["op"])(sub)
        d = diff_snap(before, self.a.snapshot())
        if d:
            self.bad("C23", "%s changed the archive: %s" % (sub["op"], d))
        self.o.label("read-only")

    # -- comparing the files with the model ---------------------------------

    def sync(self, newobj=None, tags=frozenset(), final=False):
        """Reads what changed in the silos and checks all of it."""
        a = self.a
        files = a.silos()
        if a.strays:
            self.bad({"C05"} | set(tags), "files left behind: %s" %
                     [os.path.relpath(s, a.sdir) for s in a.strays])
        for n in self.silo_data:
            if n not in files:
                self.bad("C05", "silo %d is gone" % n)
        newrecs = []
        for n in sorted(files):
            st = os.stat(files[n])
            old = self.silo_data.get(n)
            if old is not None and len(old) == st.st_size and not final and \
                    getattr(self, "mt", {}).get(n) == st.st_mtime_ns:
                continue
            with open(files[n], "rb") as f:
                d = f.read()
            self.mt = getattr(self, "mt", {})
            self.mt[n] = st.st_mtime_ns
            if old is not None:
                if d == old:
                    continue
                if not d.startswith(old):
                    self.bad({"C05", "C04"} | set(tags),
                             "bytes of silo %d changed (length %d, was %d, "
                             "first difference at %s)" %
                             (n, len(d), len(old), first_diff(d, old)))
                if not self.silo_mode[n] & 0o200:
                    self.bad("C05", "write-protected silo %d changed" % n)
            if len(d) > a.max and (old is None or len(d) > len(old)) and \
                    "C18" not in tags:
                big = any(r.segno for r in self.silo_recs.get(n, []))
                self.bad({"C05", "C06"} | set(tags),
                         "silo %d has %d bytes, the limit is %d" %
                         (n, len(d), a.max))
            try:
                recs = warc.parse_silo(d, len(old or b""))
            except warc.Bad as e:
                self.bad({"C04"} | set(tags), "silo %d: %s" % (n, e))
            for r in recs:
                if r.errs:
                    self.bad({"C04"} | set(tags) |
                             ({"C06"} if r.segno else set()),
                             "silo %d, record at %d: %s" %
                             (n, r.off, "; ".join(r.errs)))
                self.check_rec(n, r, bool(old) or r is not recs[0], tags)
            self.silo_data[n] = d
            self.silo_recs[n] = self.silo_recs.get(n, []) + recs
            self.silo_mode.setdefault(n, st.st_mode & 0o777)
            newrecs += [(n, r) for r in recs]
        if newobj is not None:
            self.check_new(newobj, newrecs)
        elif newrecs and not tags:
            self.bad({"C04", "C05"}, "records appeared out of nowhere: %s" %
                     [(n, r.off) for n, r in newrecs][:5])
        self.check_index(tags)

    def check_rec(self, n, r, later, tags):
        a = self.a
        if r.type == "warcinfo":
            if later:
                self.bad({"C04"}, "second warcinfo in silo %d" % n)
            if r.get("WARC-Filename") != a.base % n:
                self.bad({"C04", "C25"}, "warcinfo of silo %d names %r" %
                         (n, r.get("WARC-Filename")))
            if r.get("Content-Type") != "application/warc-fields":
                self.bad("C04", "warcinfo content type %r" %
                         r.get("Content-Type"))
            lines = r.body.decode("utf-8", "replace").split("\r\n")
            if lines[-1] != "":
                self.bad("C04", "warcinfo body does not end with CRNL")
            # names may be repeated (that is up to the configuration)
            if True:
                for nm, v in [("description:", "test archive")] + [
                        tuple(x) for x in a.conf["info"]]:
                    if nm.lower() in ("conformsto:", "format:", "software:",
                                      "title:"):
                        continue
                    if "%s %s" % (nm, v) not in lines:
                        self.bad({"C04", "C22"}, "warcinfo of silo %d lacks "
                                 "%r: %r" % (n, nm, lines))
            if "title: " + a.base % n not in lines:
                self.bad("C04", "warcinfo of silo %d has no title: %r" %
                         (n, lines))
            want = sha(r.body)[:a.idsize]
            if r.get("WARC-Record-ID") != "<%s%s>" % (a.prefix, want):
                self.bad({"C04"}, "warcinfo id %r is not %s" %
                         (r.get("WARC-Record-ID"), want))
        elif not later:
            self.bad("C04", "silo %d does not start with a warcinfo but %s" %
                     (n, r.type))

    def check_new(self, ob, newrecs):
        """The records a store added must be the object, once."""
        a = self.a
        data = [(n, r) for n, r in newrecs if r.type != "warcinfo"]
        tg = {"C04"}
        if not data:
            self.bad({"C01", "C04"}, "store of %s added no record" % ob.id)
        segs = [x for x in data if x[1].segno is not None]
        if not segs:
            if len(data) != 1:
                self.bad(tg, "store of %s added %d records" %
                         (ob.id, len(data)))
            n, r = data[0]
            self.check_fields(ob, r, r.body == ob.body, tg)
            ob.segmented = False
            return
        tg = {"C04", "C06"}
        ob.segmented = True
        if len(segs) != len(data):
            self.bad(tg, "segments and other records in one store")
        segs.sort(key=lambda x: x[1].segno)
        nums = [r.segno for _, r in segs]
        if nums != list(range(1, len(segs) + 1)):
            self.bad(tg, "segments of %s are numbered %s" % (ob.id, nums))
        if len(segs) == 1:
            self.bad(tg, "object %s has a single segment" % ob.id)
        if len({n for n, _ in segs}) != len(segs):
            self.bad(tg, "segments of %s share a silo" % ob.id)
        if b"".join(r.body for _, r in segs) != ob.body:
            self.bad(tg, "the segments of %s together are not the object" %
                     ob.id)
        if any(not r.body for _, r in segs):
            self.bad(tg, "empty segment")
        for n, r in segs:
            if r.blen > 131000 and (r.blen + 3) % 131072 < 40:
                self.o.label("segment:edge")
            if len(self.silo_recs[n]) != 2:
                self.bad(tg, "silo %d of a segment has %d records" %
                         (n, len(self.silo_recs[n])))
        self.check_fields(ob, segs[0][1], True, tg)
        if segs[0][1].get("WARC-Payload-Digest") != "sha256:" + sha(ob.body):
            self.bad(tg, "payload digest of %s is %r" %
                     (ob.id, segs[0][1].get("WARC-Payload-Digest")))
        for n, r in segs[1:]:
            if r.type != "continuation":
                self.bad(tg, "segment %d has type %r" % (r.segno, r.type))
            if r.get("WARC-Segment-Origin-ID") != "<%s%s>" % (
                    a.prefix, ob.idspell):
                self.bad(tg, "segment %d has origin %r" %
                         (r.segno, r.get("WARC-Segment-Origin-ID")))
            want = "<%s%s>" % (a.prefix, sha(r.body)[:a.idsize])
            if r.get("WARC-Record-ID") != want:
                self.bad(tg | {"C02"}, "segment %d has id %r, not %r" %
                         (r.segno, r.get("WARC-Record-ID"), want))
        for n, r in segs[:-1]:
            if r.get("WARC-Segment-Total-Length") is not None:
                self.bad(tg, "segment %d of %d has a total length" %
                         (r.segno, len(segs)))
        tl = segs[-1][1].get("WARC-Segment-Total-Length")
        if tl != "%d" % ob.len:
            self.bad(tg, "total length is %r, not %d" % (tl, ob.len))
        # objects which fit are not segmented
        tot = sum(r.blen for _, r in segs)
        room = a.max - max(r.off + r.hlen for _, r in segs)
        if tot + 24 + 64 + 16 * len(segs) < room:
            self.bad({"C06"}, "object %s with %d bytes compressed was "
                     "segmented, a silo has room for %d" %
                     (ob.id, tot, room))

    def check_fields(self, ob, r, bodyok, tg):
        a = self.a
        if not bodyok:
            self.bad({"C01"} | tg, "the record of %s has another body" % ob.id)
        for k, v in (("WARC-Record-ID", "<%s%s>" % (a.prefix, ob.idspell)),
                     ("WARC-Type", ob.type), ("Content-Type", ob.mime),
                     ("WARC-Refers-To",
                      None if ob.ref is None else "<%s>" % ob.ref)):
            if r.get(k) != v:
                self.bad(tg | {"C08"} | ({"C02"} if k == "WARC-Record-ID"
                                         else set()),
                         "the record of %s has %s: %r, not %r" %
                         (ob.id, k, r.get(k), v))
        try:
            t = calendar.timegm(time.strptime(r.get("WARC-Date"),
                                              "%Y-%m-%dT%H:%M:%SZ"))
        except ValueError:
            t = -1
        if not ob.t0 - 1 <= t <= ob.t1 + 1:
            self.bad(tg | {"C08"}, "date %r of %s is not the UTC time of the "
                     "store" % (r.get("WARC-Date"), ob.id))

    def expected_index(self):
        """The entries the silos call for."""
        a = self.a
        ents = []
        chain = {}
        for n in self.silo_recs:
            for r in self.silo_recs[n]:
                if r.segno is not None:
                    oid = (r.get("WARC-Segment-Origin-ID") or
                           r.get("WARC-Record-ID")).lower()
                    chain.setdefault((oid, r.segno), []).append(
                        r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1])
        for n in self.silo_recs:
            for r in self.silo_recs[n]:
                rid = r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1].lower()
                fl = {"warcinfo": 2, "resource": 4, "metadata": 8}.get(
                    r.type, 0)
                cont = "0" * 8
                if r.segno is not None:
                    fl |= warc.F_SEG
                    if r.segno == 1:
                        fl |= warc.F_FIRST
                    if r.get("WARC-Segment-Total-Length") is not None:
                        fl |= warc.F_LAST
                    else:
                        oid = (r.get("WARC-Segment-Origin-ID") or
                               r.get("WARC-Record-ID")).lower()
                        nx = chain.get((oid, r.segno + 1))
                        cont = nx[0][:8].lower() if nx else "?"
                key = (rid[:24] + "0" * 24)[:24]
                ents.append((key, fl, n, r.off, cont))
        return ents

    def check_index(self, tags=frozenset()):
        a = self.a
        try:
            got = [e for _, e in warc.read_index(a.sdir)]
        except warc.Bad as e:
            self.bad({"IDX", "C01"} | set(tags), "index: %s" % e)
        want = self.expected_index()
        if len(set(got)) != len(got) and not self.idx_dup_ok:
            self.bad({"IDX", "C05"} | set(tags), "duplicate index entries")
        if set(got) != set(want):
            seg = any(e[1] & warc.F_SEG for e in set(got) ^ set(want))
            self.bad({"IDX", "C01"} | ({"C06"} if seg else set()) | set(tags),
                     "the index does not agree with the silos: missing %s, "
                     "wrong %s" % (sorted(set(want) - set(got))[:3],
                                   sorted(set(got) - set(want))[:3]))

    def final(self, get=True, o=""):
        self.sync(final=True)
        # every object once
        seen = {}
        for n in self.silo_recs:
            for r in self.silo_recs[n]:
                if r.type in ("resource", "metadata"):
                    rid = r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1]
                    seen[rid.lower()] = seen.get(rid.lower(), 0) + 1
        for k, v in seen.items():
            if v != 1 or k not in self.objs:
                self.bad({"C04", "C03"}, "%s has %d records" % (k, v))
        for k in self.objs:
            if k not in seen:
                self.bad({"C04", "C01"}, "%s has no record" % k)
        if get:
            self.op_getall({"o": o})

    def play(self, ops):
        """Runs the operations; returns the outcome."""
        try:
            for op in ops:
                self.o.steps += 1
                getattr(self, "op_" + op["op"])(op)
            self.final()
        except Stop:
            pass
        self.o.steps += 0
        return self.o


def accepts_gzip(ae):
    """Is gzip acceptable by this Accept-Encoding header (RFC 9110)?"""
    star = False
    for w in (ae or "").lower().split(","):
        p = [x.strip() for x in w.split(";")]
        q = 1.0
        for x in p[1:]:
            if x.startswith("q="):
                q = float(x[2:])
        if p[0] in ("gzip", "x-gzip"):
            return q > 0
        if p[0] == "*":
            star = q > 0
    return star


def subst(x, sub):
    for k, v in sub.items():
        x = x.replace(k, v)
    return x


def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi) // 2
        if a[:m + 1] == b[:m + 1]:
            lo = m + 1
        else:
            hi = m
    return lo
