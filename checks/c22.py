import os
import random
import re
import shutil
from decimal import Decimal, ROUND_FLOOR, ROUND_HALF_UP, getcontext

import build
import gen
import hist
from core import Base, Stop
from hist import Hist
from histcheck import HistCheck

getcontext().prec = 80
SUFF = {"": 0, "k": 10, "m": 20, "g": 30, "t": 40, "p": 50}
WS = [" ", "\t", "  ", "\t\t", " \t ", "        "]


def rcase(rng, s):
    x = rng.random()
    if x < .5:
        return s
    if x < .7:
        return s.upper()
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)


def spell_size(rng, v):
    """Writes the number of bytes in some way that means exactly v."""
    for _ in range(20):
        k = rng.choice(["", "", "k", "k", "m", "g", "t", "p", "e"])
        if k == "e":
            e = rng.randint(1, 4)
            d = Decimal(v).scaleb(-e)
            s = "%s%s%s" % (format(d, "f"), rng.choice("eE"),
                            rng.choice(["", "+"]) + str(e))
            x = Decimal(format(d, "f")).scaleb(e)
            if x != v:
                continue
        else:
            unit = Decimal(1 << SUFF[k])
            nd = rng.choice([0, 1, 2, 3, 6, 9, 12, 15])
            d = (Decimal(v) / unit).quantize(Decimal(1).scaleb(-nd))
            s = format(d, "f")
            x = (d * unit).quantize(Decimal(1), ROUND_HALF_UP)
            if k == "" and "." in s:
                x = d.quantize(Decimal(1), ROUND_FLOOR)
            if x != v or abs(d * unit - x) > Decimal(".3"):
                continue
        if s.startswith("0.") and rng.random() < .3:
            s = s[1:]
        if rng.random() < .1:
            s = "+" + s
        if rng.random() < .1:
            s = "00" + s if s[0].isdigit() else s
        if k not in ("", "e"):
            s += rng.choice([k, k.upper()])
            if rng.random() < .2:
                s += rng.choice("bB")
        elif rng.random() < .1:
            s += rng.choice("bB")
        return s
    return "%d" % v


def gen_number(rng):
    """(text, value or None) for the conversion of sizes."""
    x = rng.random()
    if x < .25:
        return rng.choice(
            ["", "k", ".", "+", "-", "e5", "1e", "1e+", "1.2.3", "1 kk",
             "1bk", "0x10", "1,5", "nan", "inf", "-1", "-1k", "-0.5G", "1e40",
             "9999999999999P", "1q", "1 M x", "M1", "1kM", "--1",
             "1e5x", "1..", "bb", "1bb", "1%", "50%", "12 12", "1e400",
             "8192P0"]), None
    ip = "%d" % rng.randrange(10 ** rng.randint(1, 9))
    s = ip
    if rng.random() < .6:
        n = rng.randint(0, 12)
        s += "." + "".join(rng.choice("0123456789") for _ in range(n))
        if rng.random() < .2 and n:
            s = s[s.index("."):]
    v = Decimal(s) if s not in (".",) else Decimal(0)
    if rng.random() < .2:
        e = rng.randint(-8, 8)
        s += rng.choice("eE") + rng.choice(["%d", "%+d"]) % e
        v = v.scaleb(e)
    if rng.random() < .1:
        s = "+" + s
    k = rng.choice(["", "", "k", "m", "g", "t", "p"])
    if k and rng.random() < .2:
        s += " "
    s += rng.choice([k, k.upper()])
    if rng.random() < .2:
        s += rng.choice("bB")
    v *= 1 << SUFF[k]
    if v >= Decimal(1 << 62):
        return "1", Decimal(1)
    return s, v


def render(rng, c, sdir):
    """Configuration text with the meaning of c."""
    sec = []
    bits = c["bits"]
    idt = c["prefix"]
    if bits is not None:
        idt += rng.choice(WS) + rng.choice(["%d", "%d", "0x%x", "0%o"]) % bits
    sec.append(["WARC-Record-ID", [idt]])
    sec.append(["silo.directory", [sdir]])
    sec.append(["warcinfo.body", ["description:" + rng.choice(WS) +
                                  "test archive"] +
                [n + rng.choice(WS) + v if v is not None else n
                 for n, v in c["info"]]])
    if c.get("max") is not None:
        sec.append(["silo.max_size", [
            c["maxs"] if c.get("maxv") == c["max"] else "%d" % c["max"]]])
    elif rng.random() < .2:
        sec.append(["silo.max_size", []])
    if c.get("base") is not None:
        sec.append(["silo.basename", [c["base"]]])
    if c.get("sort") is not None:
        sec.append(["index.sort_size", [c["sort"]]])
    for n, l in (("resource", c["rmime"]), ("metadata", c["mmime"])):
        sec.append([n + ".mime-types", list(l)])
    if rng.random() < .3:
        sec.append(["future.section", ["some thing", "x", "silo.directory:"]])
    rng.shuffle(sec)
    return sec


def text_of(rng, sec, plain=False):
    out = []

    def noise():
        while rng.random() < .25:
            out.append(rng.choice(
                ["", "# comment", "   ", "\t# silo.directory:", "#", "\t",
                 "   # \u00e6\u00f8\u00e5 \u20ac", "#x:\t"]))

    for name, ents in sec:
        noise()
        ln = rcase(rng, name) + ":"
        if rng.random() < .2:
            ln += rng.choice(WS)
        if rng.random() < .2:
            ln += "#" + rng.choice(["", " c", "x: y"])
        out.append(ln)
        for e in ents:
            noise()
            ln = rng.choice(WS) + e
            if rng.random() < .2:
                ln += rng.choice(WS)
            if rng.random() < .2:
                ln += rng.choice(["# c", "#", "##", " # a b: c"])
            out.append(ln)
    noise()
    nl = "\r\n" if rng.random() < .15 else "\n"
    t = nl.join(out)
    if rng.random() < .8:
        t += nl
    return t


BAD = ["no-id", "no-dir", "no-info", "empty-id", "empty-dir", "empty-info",
       "id-noslash", "dir-noslash", "bits", "bits", "bits2", "base", "base",
       "max", "max", "sort", "sort", "two-id", "two-dir", "two-max",
       "two-base", "two-sort", "dup", "dup", "dupcase", "nocolon",
       "aftercolon", "nosection", "byte", "nul", "dirarg", "maxarg",
       "basearg", "sortarg", "longid"]


def spoil(rng, kind, sec, c):
    """Makes the sections illegal; returns what to do with the text."""
    d = {s[0]: s for s in sec}

    def drop(n):
        sec.remove(d[n])

    def put(n, ents):
        if n in d:
            d[n][1] = ents
        else:
            sec.append([n, ents])
    K = {"id": "WARC-Record-ID", "dir": "silo.directory",
         "info": "warcinfo.body", "max": "silo.max_size",
         "base": "silo.basename", "sort": "index.sort_size"}
    a, _, b = kind.partition("-")
    if a == "no" and b in K:
        drop(K[b])
    elif a == "empty" and b in K:
        put(K[b], [])
    elif kind == "id-noslash":
        put(K["id"], [c["prefix"].rstrip("/") + " 128"])
    elif kind == "dir-noslash":
        put(K["dir"], [d[K["dir"]][1][0].rstrip("/")])
    elif kind == "bits":
        put(K["id"], [c["prefix"] + " " + rng.choice(
            ["60", "63", "65", "127", "129", "257", "260", "512", "0", "-128",
             "1", "66", "254", "0x81"])])
    elif kind == "bits2":
        put(K["id"], [c["prefix"] + " " + rng.choice(
            ["x", "128bits", "128 128", "12 8", "1e2", "64.0", "128,"])])
    elif kind == "base":
        put(K["base"], [rng.choice(
            ["%s", "%u%u", "%s.%u", "nosuch", "a/%u", "%u/", "x%", "%lu",
             "%*u", "%p", "%n", "100%%", "%c", "%f.gz", "%08u/x",
             "%u.%d", "%"])])
    elif kind == "max" or kind == "sort":
        put(K[kind], [rng.choice(
            ["x", "10q", "-1", "-100k", "1.2.3", "0x1000", "k", "1e40",
             "1kk", "10%", "99999P", "."] +
            (["4095", "1k", "0", "3.9k", "4000b", "1e3", ".001M"]
             if kind == "sort" else []))])
    elif a == "two" and b in K:
        e = (d[K[b]][1] if K[b] in d else 0) or [
            {"max": "20k", "base": "%u.gz", "sort": "10k"}[b]]
        put(K[b], [e[0], rng.choice([e[0], "zz"])])
    elif kind in ("dup", "dupcase"):
        s = rng.choice([s for s in sec if s[1]])
        sec.append([s[0], list(s[1])])
    elif kind.endswith("arg"):
        n = K[kind[:-3]]
        e = d[n][1][0] if n in d and d[n][1] else {"max": "20k", "base": "%u.gz",
                                       "sort": "10k"}[kind[:-3]]
        put(n, [e + " " + rng.choice(["x", "M", "%u", "1"])])
    elif kind == "longid":
        put(K["id"], ["http://" + "x" * rng.choice([1000, 3000, 5000]) + "/"])


def spoil_text(rng, kind, t):
    lines = t.split("\n")
    if kind == "nocolon":
        lines.insert(rng.randrange(len(lines)), rng.choice(
            ["word", "silo.max_size 100k", "silo.max_size=100k", "x y"]))
    elif kind == "aftercolon":
        lines.insert(rng.randrange(len(lines)), rng.choice(
            ["silo.x: 100k", "future.a::", "a:b:", "a:b"]))
    elif kind == "nosection":
        lines.insert(0, "\tentry first")
    t = "\n".join(lines)
    b = t.encode()
    if kind in ("byte", "nul"):
        p = rng.randrange(len(b))
        b = b[:p] + (bytes([rng.choice([0xc0, 0xc1, 0xf5, 0xff])])
                     if kind == "byte" else b"\0") + b[p:]
    return b


class Check(HistCheck):
    pid = "C22"
    tags = None
    technique = ("property-based testing with generated configuration files, "
                 "valid ones rendered in many ways, and mutated ones")
    rule = ("A case is a set of settings rendered as a configuration file "
            "with generated layout, letter case, comments and number "
            "spellings, used for a short history which shows the effects; or "
            "the same made illegal in one way, with which every operation "
            "has to fail and write nothing; or 200 sizes for the conversion "
            "of sizes. All count as non-trivial if they ran to the end.")

    def prepare(self):
        super().prepare()
        self.vnum = build.harness("vnum.c")

    def gen(self, rng, i, tier):
        if i % 40 == 7:
            return {"nums": [list(map(str, gen_number(rng)))
                             for _ in range(200)]}
        c = gen.gen_conf(rng)
        if rng.random() < .3:
            c["bits"] = rng.choice([64, 68, 124, 128, 132, 252, 256])
        c["max"] = rng.choice([None, 1 << 20, 15360, rng.randint(6000, 50000),
                               rng.randint(6000, 50000),
                               10 ** rng.randint(4, 15),
                               1 << rng.randint(13, 52)])
        if c["max"]:
            c["maxs"] = spell_size(rng, c["max"])
            c["maxv"] = c["max"]
        if c.get("sort") is not None or rng.random() < .5:
            c["sort"] = spell_size(rng, rng.choice(
                [4096, 4097, 5000, 65536, 1 << 20, 10 << 20, 1 << 30]))
        c["info"] = []
        for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
            v = " ".join(rng.choice(["ab", "c,d", "x: y", "\u00e6", "1/2",
                                     "http://x/y", "(c)", "\"q\"", "100%", "%s%n",
                                     "%5$d"])
                         for _ in range(rng.randint(1, 6)))
            if rng.random() < .2:
                v = v.replace(" ", "  ")
            c["info"].append([rng.choice(
                ["publisher:", "operator:", "x-y:", "audience:", "Title:",
                 "FORMAT:", "software:", "conformsTo:", gen.word(rng) + ":",
                 rng.choice(gen.NEARLY)]),
                v])
        types = ["application/octet-stream", "text/plain", "x/y",
                 "Image/PNG", "application/x.y+json", "text/plain;charset=x"]
        for m in ("rmime", "mmime"):
            c[m] = rng.choice([["*"], ["*"], rng.sample(types, 3),
                               rng.sample(types, 1),
                               [rng.choice(types) + " some argument", "x/z"],
                               [rng.choice(["*/*", "**", "*x", "x*"]), "x/z"],
                               rng.sample(types, 2) + ["*"]])
        ops = []
        for _ in range(rng.randint(2, 5)):
            op = gen.gen_store(rng, {"max": min(c["max"] or 60000, 60000)},
                               .15, 0)
            op["mime"] = rng.choice(types + ["zz/zz", "IMAGE/png", "X/Y",
                                             "x/z", "text", "*"])
            ops.append(op)
        ops.append({"op": rng.choice(["hk", "getall", "audit", "mksilo",
                                      "read"]), "n": 5,
                    "do": {"op": "info"}})
        if c["max"] and c["max"] <= 50000:
            ops.append({"op": "store", "c": [["r", c["max"] * 2 + 3000, i]],
                        "full": 1, "mime": c["rmime"][0].split()[0]})
        case = {"conf": c, "ops": ops, "seed": rng.randrange(1 << 30),
                "dir": rng.choice(["s", "s", "new", "a/b"]),
                "home": rng.randrange(4) == 0}
        if i % 2:
            case["bad"] = rng.choice(BAD)
            case["ops"] = []
            case["cmds"] = [rng.choice(
                ["info", "store", "get", "mksilo", "reindex", "housekeeping",
                 "byid", "audit", "filter", "rebuild", "dumpindex", "cgi"])
                for _ in range(2)] + ["store"]
            case["used"] = rng.randrange(2)
        elif rng.random() < .05:
            case["flavour"] = "asan"
        return case

    def shrinks(self, case):
        if "nums" not in case:
            yield from super().shrinks(case)
            return
        n = case["nums"]
        for h in (n[:len(n) // 2], n[len(n) // 2:]) + (
                tuple([x] for x in n) if len(n) < 16 else ()):
            if len(h) < len(n):
                yield {"nums": h}

    def run(self, case, box):
        if "nums" in case:
            return self.numbers(case, box)
        c = dict(case["conf"])
        rng = random.Random(case["seed"])
        h = Hist(box, c, self.bins[case.get("flavour", "plain")], tags=None,
                 env={"TZ": "UTC"})
        a = h.a
        if case["dir"] != "s":
            shutil.rmtree(a.sdir)
            a.sdir = os.path.join(a.dir, case["dir"])
            if case["dir"] == "a/b":
                os.makedirs(a.sdir)
        sec = render(rng, dict(a.conf), a.sdir + "/")
        a.write_conf = lambda: None
        if "bad" in case:
            return self.illegal(h, case, rng, sec)
        text = text_of(rng, sec).encode()
        fn = a.cfgfn
        if case.get("home"):
            fn = os.path.join(a.dir, ".aardwarc.conf")
            os.unlink(a.cfgfn)
            orig = a.run
            a.run = lambda *x, **k: orig(*x, **dict(k, cfg=False))
        with open(fn, "wb") as f:
            f.write(text)
        try:
            self.valid(h, case)
        except Stop:
            pass
        h.o.viol = [v + " with configuration %r" % text for v in h.o.viol]
        h.o.nontrivial = True
        return h.o

    def valid(self, h, case):
        a = h.a
        r = a.run("info")
        if r.rc or r.out.strip() != b"id_size: %d" % a.idsize:
            h.bad("C22", "identifiers should have %d digits: %s" %
                  (a.idsize, r))
        h.op_info({})
        # names which are set by the program itself are left out
        for op in case["ops"]:
            h.o.steps += 1
            if op["op"] == "mksilo" and os.path.exists(a.silo_fn(op["n"])):
                continue
            if op["op"] in ("read", "audit", "getall", "hk") and not h.objs:
                continue
            n = len(h.order)
            had = set(h.silo_recs)
            getattr(h, "op_" + op["op"])(op)
            if op.get("full") and len(h.order) > n:
                ob = h.objs[h.order[-1]]
                if ob.len < a.max + 2000:
                    continue
                if not ob.segmented:
                    h.bad("C22", "object of %d bytes is not segmented, the "
                          "size limit is %d" % (ob.len, a.max))
                h.o.label("segmented")
                segs = [(r.segno, k) for k in h.silo_recs
                        if k not in had for r in h.silo_recs[k] if r.segno]
                for s, k in sorted(segs)[:-1]:
                    free = a.max - len(h.silo_data[k])
                    h.o.labels["max free"] = max(
                        free, h.o.labels.get("max free", 0))
                    if not 0 <= free < 900:
                        h.bad("C22", "full segment in a silo of %d, the "
                              "limit is %d" % (len(h.silo_data[k]), a.max))
        for n in h.silo_recs:
            self.info(h, n)
        h.final()

    def info(self, h, n):
        a = h.a
        got = h.silo_recs[n][0].body.decode("utf-8").split("\r\n")
        want = ["description: test archive"]
        for nm, v in a.conf["info"]:
            if nm.lower() in ("title:", "format:", "software:",
                              "conformsto:"):
                continue
            want.append("%s %s" % (nm, v))
        core = [x for x in got if not x.startswith(
            ("title:", "format:", "software:", "conformsTo:")) and x]
        # those the program sets itself are not repeated
        for nm in ("title:", "format:", "software:", "conformsto:"):
            k = sum(x.lower().startswith(nm) for x in got)
            if k != 1:
                h.bad("C22", "warcinfo of silo %d has %d lines %s" %
                      (n, k, nm))
        if core != want:
            h.bad("C22", "warcinfo of silo %d has the lines %r, not %r" %
                  (n, core, want))

    def illegal(self, h, case, rng, sec):
        a = h.a
        kind = case["bad"]
        if case.get("used") and case["dir"] == "s":
            # there is an archive already
            with open(a.cfgfn, "w") as f:
                f.write(hist.conf_text(dict(a.conf, maxs=None, rmime=["*"]),
                                       a.sdir + "/"))
            with open(h.infile, "wb") as f:
                f.write(b"something")
            r = a.run("store", h.infile)
            if r.rc:
                h.o.label("could not store")
        else:
            with open(h.infile, "wb") as f:
                f.write(b"something")
        spoil(rng, kind, sec, a.conf)
        t = spoil_text(rng, kind, text_of(rng, sec))
        with open(a.cfgfn, "wb") as f:
            f.write(t)
        h.o.label("bad:" + kind)

        def tree():
            res = {}
            for d, dn, fn in os.walk(h.box):
                for f in fn:
                    p = os.path.join(d, f)
                    res[p] = open(p, "rb").read()
                for f in dn:
                    res[os.path.join(d, f)] = None
            return res
        before = tree()
        idn = "0" * a.idsize
        args = {"info": ["info"], "store": ["store", h.infile],
                "get": ["get", idn], "mksilo": ["mksilo", "7"],
                "byid": ["byid", "-e", "00"]}
        env = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET",
               "PATH_INFO": "/" + idn}
        try:
            for cmd in case["cmds"]:
                h.o.steps += 1
                r = a.run(*args.get(cmd, [cmd]), env=env)
                if r.rc == 0 or r.crashed:
                    h.bad("C22", "illegal configuration (%s) is not refused "
                          "by %s: %s; it is %r" % (kind, cmd, r, t))
                if not r.err:
                    h.bad("C22", "illegal configuration (%s): no message" %
                          kind)
                d = {k for k in set(before) ^ set(tree())}
                if d or tree() != before:
                    h.bad("C22", "%s with an illegal configuration (%s) wrote "
                          "something: %s" % (cmd, kind, sorted(d)))
        except Stop:
            pass
        h.o.nontrivial = True
        return h.o

    def numbers(self, case, box):
        import subprocess
        from core import Outcome
        o = Outcome()
        t = "".join(x[0] + "\n" for x in case["nums"])
        r = subprocess.run([self.vnum], input=t.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=hist.HANG)
        l = r.stdout.decode().split("\n")
        o.label("numbers", len(case["nums"]))
        o.nontrivial = True
        for (s, v), g in zip(case["nums"], l):
            o.steps += 1
            if v == "None":
                if g != "error":
                    o.bad("size %r is taken for %s" % (s, g))
                continue
            v = Decimal(v)
            if g == "error" or not g.isdigit() or \
                    abs(Decimal(g) - v) > 1 + v * Decimal("1e-12"):
                o.bad("size %r is taken for %s, it is %s" % (s, g, v))
        return o
