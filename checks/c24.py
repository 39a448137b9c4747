import os
import random
import re
import shutil
import signal
import subprocess
import time

import build
import forge
import hist
import proto
import warc
from core import Base, Outcome, simpler_values
from hist import ASAN_ENV

# What a memory error looks like.  Running out of memory, arithmetic which
# overflows and shifts by too much are not accesses to memory.
ASAN = re.compile(rb"(ERROR|WARNING): (AddressSanitizer|MemorySanitizer)"
                  rb"[^\n]*")
NOTMEM = re.compile(rb"AddressSanitizer:? (requested allocation size|"
                    rb"allocation-size-too-big|out of memory|rss-limit|"
                    rb"out-of-memory|calloc-overflow|failed to allocate|"
                    rb"hard rss)")
UBSAN = re.compile(rb"runtime error: [^\n]*(out of bounds|null pointer of "
                   rb"type|insufficient space|misaligned|not a valid value|"
                   rb"size [^\n]* non-positive|never be null)[^\n]*")
READS = ("get", "cgi", "byid", "dumpindex", "filter", "audit", "info",
         "testbytes", "_none")
MTREE = os.path.join(build.VERIF, "compat/bin")
T_READ = 40
T_WRITE = 15


def env():
    e = dict(ASAN_ENV)
    e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace(
        "max_allocation_size_mb=3000", "max_allocation_size_mb=500")
    e.update({"PATH": "/usr/bin:/bin", "LANG": "C", "TZ": "UTC"})
    return e


def drop():
    """How to run a program so that it cannot touch anything outside the
    scratch directory: as nobody. None if that is not possible here."""
    cmd = ["/usr/bin/setpriv", "--reuid", "65534", "--regid", "65534",
           "--clear-groups", "--no-new-privs", "--pdeathsig", "KILL"]
    try:
        if subprocess.run(cmd + ["/bin/true"], stderr=subprocess.DEVNULL,
                          timeout=60).returncode == 0:
            return cmd
    except (OSError, subprocess.SubprocessError):
        pass
    return None


def public_copy(src, dst):
    """A copy everyone can execute."""
    if not os.path.exists(dst):
        t = "%s.%d" % (dst, os.getpid())
        shutil.copyfile(src, t)
        os.chmod(t, 0o755)
        os.rename(t, dst)
    return dst


class Box:
    """A place with a configuration, and runs of the program in it."""

    def __init__(self, dir, binary, o, prefix=()):
        self.prefix = list(prefix)
        self.dir = dir
        self.sdir = os.path.join(dir, "s")
        os.makedirs(self.sdir, exist_ok=True)
        self.cfg = os.path.join(dir, "conf")
        self.binary = binary
        self.o = o
        self.env = env()
        self.env["PATH"] = os.path.dirname(binary) + ":" + self.env["PATH"]
        self.env["HOME"] = dir
        self.last = None

    def conf(self, **kw):
        with open(self.cfg, "w") as f:
            f.write(hist.conf_text(kw, self.sdir + "/"))

    def run(self, args, inp=b"", envx=None, what=""):
        args = [a if isinstance(a, bytes) else str(a).encode() for a in args]
        if any(b"\0" in a for a in args):
            return None
        e = self.env
        if envx:
            e = dict(e)
            e.update(envx)
        op = next((a.decode("latin1") for a in args
                   if not a.startswith(b"-")), "_none")
        limit = T_READ if op in READS else T_WRITE
        self.o.steps += 1
        try:
            p = subprocess.Popen(
                self.prefix + [self.binary, "-c", self.cfg] + args, stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                cwd=self.dir, start_new_session=True)
        except (OSError, ValueError):
            return None
        hung = False
        try:
            out, err = p.communicate(inp, timeout=limit)
        except subprocess.TimeoutExpired:
            hung = True
            out = err = b""
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if hung:
            self.o.label("op:timeout:" + op)
            try:
                out, err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                p.stdout.close()
                p.stderr.close()
        self.judge(args, p.returncode, err, hung and op in READS, what)
        self.last = out
        self.err = err
        if p.returncode == 0:
            self.o.label("op:success")
        elif p.returncode and p.returncode < 0:
            self.o.label("op:aborted")
        else:
            self.o.label("op:failed")
        return p.returncode

    def judge(self, args, rc, err, hung, what):
        a = b" ".join(args).decode("latin1")[:200]
        bad = None
        for m in ASAN.finditer(err):
            if not NOTMEM.search(m.group(0)):
                bad = m.group(0)
                break
        if bad is None:
            m = UBSAN.search(err)
            bad = m.group(0) if m else None
        if bad is None and rc is not None and -rc in (
                signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
            bad = b"signal %d" % -rc
        if bad is not None:
            st = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\w+) \S*?([\w.]+:\d+)",
                            err)
            self.o.bad("%s: %s makes a memory error: %s at %s" % (
                what, a, bad.decode("latin1")[:300],
                " < ".join("%s %s" % (x.decode(), y.decode())
                           for x, y in st[:6])))
        if hung:
            self.o.bad("%s: %s does not end within %d s" % (what, a, T_READ))


class Check(Base):
    pid = "C24"
    technique = ("structure-aware fuzzing of every kind of input with a "
                 "build with AddressSanitizer and bounds checks")
    level = "exploration"
    flavours = ("asan",)
    prefix = None
    rule = ("A case is some items. Each is an archive made by hand (the same "
            "bytes for the same seed) in which records, gzip members, index "
            "entries, the index header, the cache, the configuration, a list "
            "of identifiers, the arguments or environment, a protocol stream, "
            "or a directory to stow have been made hostile or extreme, and up "
            "to seven operations on it. Non-trivial: at least five operations "
            "ran, and there were both accepted and rejected ones.")
    quick = (100000, 75)
    thorough = (3000000, 1500)
    assumptions = [
        "gcc's AddressSanitizer and UndefinedBehaviorSanitizer (bounds, null, "
        "object sizes) detect accesses outside objects; accesses within an "
        "object's neighbour that stay in valid memory of the same redzone-free "
        "structure are not seen",
        "running out of memory or of stack limits of the machine is not "
        "counted"]

    KINDS = [("silo", 30), ("index", 12), ("both", 4), ("cache", 3),
             ("conf", 10), ("list", 5), ("stevedore", 8), ("stow", 5),
             ("args", 7), ("sound", 6), ("stowpeer", 5)]

    def gen(self, rng, i, tier):
        ks, ws = zip(*self.KINDS)
        n = rng.choice([2, 3, 4])
        return {"items": [[k, rng.randrange(1 << 40)]
                          for k in rng.choices(ks, ws, k=n)]}

    def run(self, case, box):
        o = Outcome()
        os.umask(0)
        os.chmod(box, 0o777)
        base = os.path.dirname(box)
        exe = public_copy(self.bins["asan"], os.path.join(base, "aardwarc"))
        public_copy(os.path.join(MTREE, "mtree"), os.path.join(base, "mtree"))
        if self.prefix is None:
            self.prefix = drop() or []
        for n, (kind, seed) in enumerate(case["items"]):
            if kind in ("conf", "stow", "stowpeer") and not self.prefix:
                kind = "silo"       # those could write anywhere
            b = Box(os.path.join(box, "i%d" % n), exe, o, self.prefix)
            getattr(self, "do_" + kind)(b, random.Random(seed), kind)
            o.label("kind:" + kind)
            subprocess.run(["rm", "-rf", b.dir])
            if o.viol:
                break
        o.nontrivial = o.steps >= 5 and o.labels.get("op:success", 0) and \
            (o.labels.get("op:failed", 0) or o.labels.get("op:aborted", 0))
        o.nontrivial = bool(o.nontrivial)
        return o

    # -- archives ----------------------------------------------------------

    def forge(self, b, rng):
        bits = rng.choice([128, 128, 128, 64, 256, 100])
        pre = rng.choice(["http://ex.org/a/", "http://ex.org/a/",
                          "x:/", "http://%s.org/" % ("long" * 20), "/"])
        base = rng.choice(["%08u.warc.gz", "%08u.warc.gz", "%u", "s%xz"])
        b.conf(prefix=pre, bits=bits, base=base, max=rng.choice(
            [15360, 100000]))
        f = forge.Forge(rng, pre, bits // 4, base)
        f.base = base
        return f

    def put(self, b, f, lay):
        for n, d in lay.items():
            forge.write(b.sdir, n, f.base, d)

    def put_index(self, b, rng, ents, hostile):
        """Writes the entries into one or more of the index files."""
        x = rng.randrange(4)
        if hostile:
            ents = forge.spoil_entries(rng, ents, 3)
        cut = {0: 0, 1: len(ents), 2: len(ents) // 2,
               3: rng.randrange(len(ents) + 1)}[x]
        a, s = ents[:cut], ents[cut:]
        ad = b"".join(a)
        sd = forge.sorted_index(s) if s else None
        if hostile and rng.random() < .6:
            if s and rng.random() < .7:
                sd = forge.spoil_sorted(rng, s)
            elif ad:
                ad = forge.mangle(rng, ad)
        name = "appendix"
        if rng.random() < .1:
            name = "housekeep"
        if ad or rng.random() < .1:
            with open(os.path.join(b.sdir, "index." + name), "wb") as fh:
                fh.write(ad)
        if sd is not None:
            with open(os.path.join(b.sdir, "index.sorted"), "wb") as fh:
                fh.write(sd)

    def ops(self, b, f, rng, what, hurt=None, n=None):
        """Some operations, mostly those which look at what was hurt."""
        files = [os.path.join(b.sdir, warc.silo_path(n) + f.base % n)
                 for n in sorted(f.silos)]
        ids = list(f.ids) + [r.id() for r in f.recs()][:6]
        ids = [i for i in ids if i] or ["0" * 32]
        l = []
        for r in (hurt or []):
            i = r.id() or ids[0]
            if i not in ids:
                ids.append(i)
            for o in (["get", i], ["get", "-z", i]):
                if rng.random() < .5:
                    l.append(o)
        for i in rng.sample(ids, min(len(ids), 2)):
            l.append(["get"] + rng.choice([[], ["-z"], ["-n"], ["-q"]]) + [i])
        if rng.random() < .6:
            l.append(["audit"] + rng.choice(
                [[], [], files, ["-i", "ignore-metadata-record-id"]]))
        if rng.random() < .5:
            l.append(["rebuild"] + files)
        if rng.random() < .35:
            l.append(["reindex"] + rng.choice([[], files]))
            l.append(["get", rng.choice(ids)])
        if rng.random() < .25:
            l.append(["cgi", rng.choice(ids), rng.random() < .5])
        if rng.random() < .15:
            l.append(["byid", "-" if rng.random() < .2 else
                      rng.choice(ids)[:rng.choice([2, 5, 8, 16, 24, 32])]])
        if rng.random() < .15:
            l.append(["dumpindex"] + rng.choice([
                [], ["-t", "resource"], ["-t", "metadata"],
                [rng.choice(ids)[:rng.choice([1, 2, 8, 30])]]]))
        if rng.random() < .15:
            l.append(["filter", "-s", "-"])
        if rng.random() < .15:
            l.append(["housekeeping"])
            l.append(["get", rng.choice(ids)])
        if rng.random() < .12:
            l.append(["store", "-t", "resource", "-m", "text/plain", "-"])
        for o in l:
            inp, e = b"", None
            if o[0] == "cgi":
                e = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET",
                     "PATH_INFO": "/" + o[1].replace("\0", "")}
                if o[2]:
                    e["HTTP_ACCEPT_ENCODING"] = "gzip"
                o = ["cgi"]
            elif o[0] == "filter":
                inp = ("\n".join(ids) + "\n").encode("latin1")
            elif o[0] == "store":
                inp = rng.randbytes(rng.choice([1, 500, 30000]))
            b.run(o, inp, e, what)
            if b.o.viol:
                return

    def do_silo(self, b, rng, kind):
        f = self.forge(b, rng)
        recs = f.recs()
        hurt, how = [], []
        if rng.random() < .9:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r = rng.choice(recs)
                how.append(forge.spoil_record(rng, r))
                hurt.append(r)
        lay = f.layout()
        if not how or rng.random() < .12:
            n = rng.choice(sorted(lay))
            lay[n] = forge.mangle(rng, lay[n])
            how.append("raw")
        self.put(b, f, lay)
        if rng.random() < .9:
            self.put_index(b, rng, f.entries(), kind == "both")
        for h in how:
            b.o.label("silo:" + h.split(":")[0])
        self.ops(b, f, rng, "hostile silo (%s)" % ", ".join(how), hurt)

    do_both = do_silo

    def do_index(self, b, rng, kind):
        f = self.forge(b, rng)
        lay = f.layout()
        self.put(b, f, lay)
        self.put_index(b, rng, f.entries(), True)
        self.ops(b, f, rng, "hostile index")
        for o in (["byid", rng.choice(f.ids)], ["dumpindex"],
                  ["filter", "-"], ["housekeeping"]):
            if rng.random() < .35 and not b.o.viol:
                b.run(o, ("\n".join(f.ids) + "\n").encode(), None,
                      "hostile index")

    def do_cache(self, b, rng, kind):
        f = self.forge(b, rng)
        self.put(b, f, f.layout())
        self.put_index(b, rng, f.entries(), False)
        v = [rng.choice([0, 1, 2, 99, 100, 10000, 0x7fffffff, 0x80000000,
                         0xfffffffe, 0xffffffff, rng.getrandbits(32)])
             for _ in range(2)]
        d = b"".join(x.to_bytes(4, "big") for x in v)
        d = rng.choice([d, d, d, d[:5], b"", d + d])
        with open(os.path.join(b.sdir, "_.cache"), "wb") as fh:
            fh.write(d)
        for o in rng.sample([
                ["store", "-t", "resource", "-m", "a/b", "-"], ["mksilo", "-"],
                ["reindex"], ["housekeeping"], ["audit"], ["get", f.ids[0]],
                ["mksilo", str(rng.choice([5, 1 << 31, (1 << 32) - 1]))]], 3):
            b.run(o, rng.randbytes(rng.choice([5, 40000])), None,
                  "cache %s" % d.hex())

    def do_conf(self, b, rng, kind):
        f = self.forge(b, rng)
        self.put(b, f, f.layout())
        self.put_index(b, rng, f.entries(), False)
        with open(b.cfg, "rb") as fh:
            t = fh.read()
        x = rng.randrange(8)
        lines = t.split(b"\n")
        if x <= 2:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(lines))
                y = rng.randrange(8)
                if y == 0:
                    lines[i] = forge.string(rng, lines[i])
                elif y == 1:
                    del lines[i]
                    lines = lines or [b""]
                elif y == 2:
                    lines.insert(i, rng.choice(lines))
                elif y == 3:
                    lines[i] = b"\t" + forge.string(rng, lines[i].strip())
                elif y == 4:
                    lines[i] += rng.choice([b" x", b"#", b":", b"\t", b"\r",
                                            b"\\", b"\xc3\xa6", b"\x80"])
                elif y == 5:
                    lines[i] = rng.choice([b"", b" ", b"\t", b":", b"#", b"x",
                                           b" : ", b"a b:", b"\t*", b"::"])
                elif y == 6:
                    lines[i] = lines[i].lstrip()
                else:
                    lines[i] = b"\t" + lines[i]
            t = b"\n".join(lines)
        elif x == 3:
            t = forge.mangle(rng, t)
        else:
            name, vals = rng.choice([
                (b"silo.basename", [
                    b"%s", b"%n", b"%lu", b"%llu", b"%hhu", b"%hu", b"%c",
                    b"%%", b"%", b"%u%u", b"%u%%u", b"%*u", b"%1$u", b"%.*u",
                    b"%p", b"%f", b"%-08u", b"%+u", b"%#x", b"%5000u",
                    b"%.3000u", b"%99999u", b"%1000000u", b"%u%s", b"%zu",
                    b"%ju", b"%tu", b"%Lu", b"%qu", b"%ls", b"%i", b"%d",
                    b"%o", b"%X", b"a%", b"x%u%", b"%u.%", b"%5", b"%l",
                    b"\xe6%u", b"u" * 300 + b"%u", b"%'u", b"% u", b"%m%u",
                    b"%[a]", b"%C", b"%S", b"%a"]),
                (b"silo.max_size", [b"0", b"1", b"23", b"100", b"4096", b"-1",
                                    b"1E", b"16E", b"99999999999999999999",
                                    b"1.5.5G", b"1e400", b"nan", b"0x10",
                                    b"1Q", b"%", b"4G", b"9" * 400,
                                    b"1." + b"9" * 400 + b"k"]),
                (b"index.sort_size", [b"0", b"4096", b"4097", b"1k", b"8191",
                                      b"4128", b"1E", b"100G", b"-4096",
                                      b"9" * 300]),
                (b"WARC-Record-ID", [
                    b"x/ 64", b"x/ 63", b"x/ 257", b"x/ 256", b"x/ 0", b"/ 64",
                    b"x/ 0x40", b"x/ 4294967360", b"x/ -64", b"x",
                    b"a" * 600 + b"/", b"a" * 511 + b"/ 256", b"//", b"x/ 100",
                    b"\xff/", b"%s%n/", b"x/ 18446744073709551680"]),
                (b"silo.directory", [b"/", b"x/", b"gone/", b"x",
                                     b"a" * 5000 + b"/", b"%s/", b"./"]),
                (b"resource.mime-types", [b"*/*", b"a", b"* x", b"A/B"]),
                (b"warcinfo.body", [b"x", b"x: y", b": z", b"x:",
                                    b"a" * 10000 + b": b", b"%s: %n",
                                    b"%b %d", b"x: \xff"]),
            ])
            v = rng.choice(vals)
            if name == b"silo.directory" and v in (b"/",):
                v = b"x/"       # nothing outside the box is to be touched
            out, skip = [], False
            for l in lines:
                if l[:1] not in (b"\t", b" "):
                    skip = l.lower().startswith(name.lower())
                if not skip:
                    out.append(l)
            out += [name + b":", b"\t" + v]
            t = b"\n".join(out) + b"\n"
        # absolute paths lead into the box or nowhere
        sd = b.sdir.encode()
        t = re.sub(rb"(?m)^([ \t]+)/(?!%s)" % re.escape(
            sd[1:]), rb"\1x/", t)
        with open(b.cfg, "wb") as fh:
            fh.write(t)
        i = f.ids[0]
        for o in rng.sample([
                ["store", "-t", "resource", "-m", "a/b", "-"],
                ["store", "-t", "metadata", "-m", "a/b", "-r", i, "-"],
                ["get", i], ["mksilo", "-"], ["mksilo", "12345"], ["info"],
                ["reindex"], ["housekeeping"], ["audit"], ["byid", i],
                ["filter", "-"], ["reindex", "0/" + f.base % 0],
                ["stow", "x"]], 4):
            b.run(o, rng.randbytes(rng.choice([5, 40000])) if o[0] == "store"
                  else b"", None, "configuration")

    def do_list(self, b, rng, kind):
        f = self.forge(b, rng)
        self.put(b, f, f.layout())
        self.put_index(b, rng, f.entries(), False)
        ids = f.ids + [forge.sha(b"%d" % k) for k in range(5)]
        ls = []
        for _ in range(rng.choice([1, 3, 30, 2000])):
            l = rng.choice(ids).encode()
            if rng.random() < .3:
                l = f.p + l
            if rng.random() < .15:
                l = forge.string(rng, l)
            elif rng.random() < .05:
                l = l[:f.idsize] + b" " * rng.choice(
                    [1, 100, 8190 - f.idsize, 8191 - f.idsize,
                     8192 - f.idsize, 20000])
            ls.append(l)
        if rng.random() < .3:
            ls.sort()
        t = b"\n".join(ls) + rng.choice([b"\n", b"\n", b"", b"\0\n", b"\n\n"])
        if rng.random() < .3:
            t = forge.mangle(rng, t)
        fn = os.path.join(b.dir, "l")
        with open(fn, "wb") as fh:
            fh.write(t)
        for o in rng.sample([["filter"], ["filter", "-s", fn], ["filter", "-v"],
                             ["filter", "-r", fn, fn], ["filter", "-"],
                             ["filter", "-v", "-s", "-o",
                              os.path.join(b.dir, "o"), fn]], 3):
            b.run(o, t, None, "identifier list")

    def do_args(self, b, rng, kind):
        f = self.forge(b, rng)
        self.put(b, f, f.layout())
        self.put_index(b, rng, f.entries(), False)
        i = f.ids[0].encode()
        fn = os.path.join(b.dir, "f").encode()
        with open(fn, "wb") as fh:
            fh.write(b"contents")
        silo = os.path.join(b.sdir, warc.silo_path(0) + f.base % 0).encode()
        words = [i, f.p + i, b"-", fn, silo, b"resource", b"metadata", b"a/b",
                 b"text/plain", b"0", b"5", b"4294967295", b"", b"x", b"--",
                 b"/dev/null", b.dir.encode(), b"-h", i[:8], b"%s%n"]
        opts = {"store": ["t", "m", "r", "i"], "get": ["z", "n", "q", "o"],
                "audit": ["i"], "reindex": [], "rebuild": [], "mksilo": [],
                "byid": [], "dumpindex": ["t"], "info": [],
                "housekeeping": [], "filter": ["o", "r", "s", "v"],
                "cgi": [], "stow": ["c", "d", "r"], "stevedore": [],
                "testbytes": ["s", "l"]}
        for _ in range(5):
            op = rng.choice(sorted(opts) + ["xyzzy", ""])
            args = [op]
            if op == "testbytes" and rng.random() < .8:
                continue        # makes as many bytes as it is told
            for _ in range(rng.choice([0, 1, 2, 3])):
                o = rng.choice(opts.get(op, []) + [
                    rng.choice("abchtmorsvzqnx")])
                args.append("-" + o)
                if rng.random() < .6:
                    w = rng.choice(words)
                    if rng.random() < .3:
                        w = forge.string(rng, w).replace(b"\0", b"")
                    if o == "o" or w[:1] == b"/" and \
                            not w.startswith((b.dir.encode(), b"/dev/null")):
                        w = os.path.join(b.dir, "out").encode()
                    args.append(w)
            for _ in range(rng.choice([0, 1, 1, 2])):
                w = rng.choice(words)
                if rng.random() < .3:
                    w = forge.string(rng, w).replace(b"\0", b"")
                if w[:1] == b"/" and not w.startswith(b.dir.encode()):
                    w = b"/dev/null"
                args.append(w)
            e = {}
            if op == "cgi" or rng.random() < .1:
                e = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET"}
                w = b"/" + rng.choice([i, f.p + i, b"", i[:5]])
                if rng.random() < .5:
                    w = forge.string(rng, w)
                e["PATH_INFO"] = w.replace(b"\0", b"")
                if rng.random() < .6:
                    g = rng.choice([
                        b"gzip", b"x-gzip;q=0.5", b"gzip;q", b"gzip;", b";",
                        b",", b",,,,", b"gzip;q=", b"g", b"x-", b"identity, "
                        b"gzip ; q=1", b"gzi", b"gzip " * 1000, b"*", b" "])
                    if rng.random() < .5:
                        g = forge.string(rng, g).replace(b"\0", b"")
                    e["HTTP_ACCEPT_ENCODING"] = g
                if rng.random() < .1:
                    e[rng.choice(sorted(e))] = ""
            if sum(len(a) for a in args) > 100000 or any(
                    len(v) > 100000 for v in e.values()):
                continue
            b.run(args, rng.choice([b"", b"abc\n", i + b"\n"]), e,
                  "arguments, environment %r" % sorted(e.items())[:6])
            if b.o.viol:
                return

    # -- sound ones, of all sizes ------------------------------------------

    def do_sound(self, b, rng, kind):
        bits = rng.choice([64, 128, 256])
        pl = rng.choice([1, 16, 100, 300, 500])
        pre = ("http://e/" + "p" * pl)[:pl - 1] + "/" if pl > 1 else "/"
        if rng.random() < .1:
            pre = "http://%s%n%s%n/"
        mx = rng.choice([8000, 15360, 65536, 1 << 20])
        if pl > 100:
            mx = max(mx, 15360)
        b.conf(prefix=pre, bits=bits, max=mx)
        ids = []
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([1, 4095, 4096, 4097, mx - 3000, mx - 1500,
                            mx - 1000, mx - 700, mx, mx + 1, 2 * mx,
                            131071, 131072, 131073, 409600, 700000,
                            rng.randrange(1, 50000)])
            x = rng.random()
            if x < .6:
                d = rng.randbytes(n)
            else:
                d = (b"%d " % rng.randrange(1000)) * (n // 3 + 1)
            mime = rng.choice(["a/b", "a/%s%n%s%n", "application/" + "m" * rng.choice(
                [10, 50, 100, 127])])
            args = ["store", "-t", "resource", "-m", mime, "-"]
            if ids and rng.random() < .3:
                args = ["store", "-t", "metadata", "-m", mime, "-r",
                        rng.choice(ids), "-"]
            if b.run(args, d, None, "sound archive") == 0:
                ids.append(b.last.decode("latin1").split("/")[-1].strip())
        for i in ids:
            for o in rng.sample([["get", i], ["get", "-z", i], ["get", "-n", i],
                                 ["byid", i]], 2):
                b.run(o, b"", None, "sound archive")
        for o in rng.sample([["audit"], ["housekeeping"], ["dumpindex"],
                             ["reindex"], ["rebuild"]], 2):
            if o[0] == "rebuild" and os.path.exists(b.sdir + "/0"):
                o += [os.path.join(b.sdir, "0", x)
                      for x in os.listdir(b.sdir + "/0")][:3]
            b.run(o, b"", None, "sound archive")

    # -- the protocol ------------------------------------------------------

    def frames(self, b, rng, f, peer):
        """A stream of messages, most of them sensible."""
        out = b""
        for _ in range(rng.choice([1, 3, 6, 12])):
            c = rng.choice([1, 1, 2, 2, 3, 3, 0, 4, 7])
            if c in (0, 4, 7) and rng.random() < .6:
                c = 1
            if c == 1:
                x = rng.choice(f.ids + [forge.sha(b"%d" % rng.randrange(9))])
                body = x.encode()
                if peer:
                    body = rng.choice([b"", b"\0\0\0\1", b"\0\0\0\2", body,
                                       b"\xff" * 4, b"\0" * 4])
                else:
                    body = rng.choice([b"", body, body, body,
                                       (x + forge.sha(b""))[:64].encode()])
            elif c == 2:
                body = rng.choice([b"", rng.randbytes(rng.choice(
                    [1, 31, 32, 33, 255, 256, 8192, 8193, 40000]))])
                if peer:
                    body = f.p + rng.choice(f.ids).encode()
            elif c == 3:
                body = rng.choice([rng.choice(f.ids).encode(), b"", b"{}",
                                   rng.randbytes(rng.choice([10, 8191, 8192,
                                                             20000]))])
            else:
                body = rng.randbytes(rng.choice([0, 5, 32, 300, 9000]))
            if rng.random() < .15:
                body = forge.string(rng, body)
            fr = proto.frame(c, body, rng.randrange(3))
            if rng.random() < .06:
                fr = bytes([0xc0 | c]) + rng.choice([
                    b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\0\0\x1f\xff",
                    b"\0\0\x20\0", b"\0\0\x20\1", b"\x80\0\0\0"]) + body
            out += fr
        if rng.random() < .15:
            out = forge.mangle(rng, out)
        return out

    def do_stevedore(self, b, rng, kind):
        f = self.forge(b, rng)
        self.put(b, f, f.layout())
        self.put_index(b, rng, f.entries(), False)
        b.run(["stevedore"], self.frames(b, rng, f, False), None,
              "protocol to the stevedore")

    def tree(self, b, rng, hard):
        """A directory to stow."""
        t = os.path.join(b.dir, "t")
        os.makedirs(t)
        d = t.encode()
        n = rng.choice([1, 2, 5])
        if hard and rng.random() < .6:
            # deep, with names which mtree writes with escapes
            comp = rng.choice([b"d" * 200, b"\xe6" * 100, b"\n" * 200,
                               b"a b" * 60, b"x"])
            fd = os.open(d, os.O_RDONLY)
            for _ in range(rng.choice([1, 3, 8, 18])):
                try:
                    os.mkdir(comp, dir_fd=fd)
                    nfd = os.open(comp, os.O_RDONLY, dir_fd=fd)
                except OSError:
                    break
                os.close(fd)
                fd = nfd
            x = os.open("f", os.O_WRONLY | os.O_CREAT, 0o644, dir_fd=fd)
            os.write(x, b"deep")
            os.close(x)
            os.close(fd)
        for k in range(n):
            nm = rng.choice([b"f%d" % k, b"f %d" % k, b"\xff%d" % k,
                             b"#%d" % k, b"\\%d" % k, b"l" * 255,
                             b"\xe6" * 255, b"=%d" % k, b"*%d" % k])
            with open(os.path.join(d, nm), "wb") as fh:
                fh.write(rng.randbytes(rng.choice([0, 1, 100, 9000])))
        if rng.random() < .3:
            os.symlink(rng.choice(["x", "y" * 4000, "\\" * 50, " "]),
                       os.path.join(t, "link"))
        return t

    def stowconf(self, b, t, cmd):
        with open(b.cfg, "a") as fh:
            fh.write("stow.job:\n\tdirectory\t%s\n\tcmd\t%s\n" % (t, cmd))

    def do_stow(self, b, rng, kind):
        f = self.forge(b, rng)
        t = self.tree(b, rng, True)
        self.stowconf(b, t, "%s -c %s stevedore 2> %s" % (
            b.binary, b.cfg, os.path.join(b.dir, "err")))
        b.run(["stow", "job"], b"", None, "stow of an odd tree")
        try:
            with open(os.path.join(b.dir, "err"), "rb") as fh:
                b.judge([b"stevedore"], 0, fh.read(), False,
                        "stow of an odd tree")
        except OSError:
            pass
        del f

    def do_stowpeer(self, b, rng, kind):
        f = self.forge(b, rng)
        t = self.tree(b, rng, False)
        # what it will be asked for
        for d, _, fn in os.walk(t.encode()):
            for x in fn:
                p = os.path.join(d, x)
                if not os.path.islink(p):
                    with open(p, "rb") as fh:
                        f.ids.append(forge.sha(fh.read())[:f.idsize])
        s = os.path.join(b.dir, "stream")
        with open(s, "wb") as fh:
            fh.write(self.frames(b, rng, f, True))
        self.stowconf(b, t, rng.choice([
            "cat %s; cat > /dev/null" % s,
            "head -c %d > /dev/null; cat %s" % (rng.choice([1, 33, 66]), s),
            "(sleep .1; cat %s) & cat > /dev/null" % s]))
        b.run(["stow", "job"], b"", None, "protocol to stow")

    def shrinks(self, case):
        return ()
