"""Generators of configurations, contents and histories.

All random choices come from the rng given.
"""
import calendar

MIMES = ["application/octet-stream", "text/plain", "text/plain;charset=utf-8",
         "application/json", "image/svg+xml", "application/x-tar",
         "application/vnd.openxmlformats-officedocument.wordprocessingml."
         "document", "x/y", "text/x%20y;a=%d", "a/%s%s%s%n%n", "a/%s%s%s%s%n"]
PREFIXES = ["http://ex.org/a/", "file://a/b/", "urn-x/", "http://Ex.Org/A/",
            "https://archive.example.org/aardwarc/of/ones/and/zeros/"
            "with/a/fairly/long/prefix/", "http://e/%s%n%41/%%/"]
BASES = [None, None, "%08u.warc.gz", "%u", "silo_%u.warc.gz", "x%05u-y.gz",
         "a%03u", "%u1", "1%u", "x%03u0.gz", "%xab.gz", "%o7", "%05u10.w"]
FORMS = [None, None, "full", "upper", "fullupper", "mixed", "prefupper"]
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-/:,"


def wchoice(rng, pairs):
    t = sum(w for w, _ in pairs)
    x = rng.random() * t
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]


def word(rng, n=12):
    return "".join(rng.choice(CHARS[:62]) for _ in range(rng.randint(1, n)))


# warcinfo fields which are nearly the ones the program sets itself
NEARLY = ["titles:", "title-alternative:", "sub-title:", "formatted:",
          "format-version:", "x-format:", "soft:", "software-used:",
          "conforms:", "conformsToo:", "tit:", "descriptions:"]


def gen_conf(rng, small=None, segm=None, bits=None):
    c = {}
    c["bits"] = bits or wchoice(rng, [(3, 128), (1, None), (1, 64), (1, 256),
                                      (1, 96), (1, 4 * rng.randint(16, 64))])
    c["prefix"] = rng.choice(PREFIXES)
    c["max"] = wchoice(rng, [
        (3, rng.randint(6000, 16000)), (2, 15360),
        (2, rng.randint(16000, 70000)), (1, rng.randint(70000, 400000)),
        (.5, 1 << 20), (.5, None)])
    if small:
        c["max"] = rng.randint(6000, 20000)
    if segm:
        c["max"] = wchoice(rng, [(2, rng.randint(5000, 16000)),
                                 (2, rng.randint(16000, 140000)),
                                 (1, rng.randint(140000, 400000))])
    c["base"] = rng.choice(BASES)
    c["sort"] = wchoice(rng, [(2, None), (2, "4k"), (1, "4100"),
                              (1, str(rng.randint(4096, 20000)))])
    if rng.random() < .4:
        c["info"] = [[rng.choice(NEARLY) if rng.random() < .2 else
                      word(rng) + ":", " ".join(
            word(rng) for _ in range(rng.randint(1, 5)))]
            for _ in range(rng.randint(1, 4))]
        if rng.random() < .3:
            # a long one
            n = rng.randint(50, min(maxof(c) // 10, 4000))
            c["info"].append(["audience:", " ".join(
                word(rng) for _ in range(n // 7))])
    if rng.random() < .15:
        c["rmime"] = ["application/octet-stream", "text/plain"]
        c["mmime"] = ["text/plain", "application/octet-stream"]
    return c


def maxof(conf):
    return conf.get("max") or 1 << 20


def gen_len(rng, conf, big=None):
    m = maxof(conf)
    edges = [1, 2, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 131071, 131072,
             131073, 409599, 409600, 409601]
    k = rng.random()
    if big is None:
        big = .3
    if k < big:
        n = rng.choice([m // 2, m - 2000, m, m + rng.randint(-400, 400),
                        2 * m, int(m * rng.uniform(1, 5)),
                        int(m * rng.uniform(.3, 1.1))])
    elif k < big + .15:
        n = rng.choice(edges)
    elif k < big + .5:
        n = rng.randint(1, 3000)
    else:
        n = rng.randint(1, 300)
    return max(1, min(n, 1500000))


def gen_edge(rng):
    return {"edge": rng.choice([rng.randint(-60, 400), rng.randint(-600, 600),
                                rng.randint(-40, 60)]),
            "m": rng.choice([4096, 65536, 65536]), "q": rng.choice([1, 1, 2]),
            "s": rng.randrange(1000)}


def gen_content(rng, conf, big=None, derived=.15, edge=.03):
    x = rng.random()
    if x < derived:
        return wchoice(rng, [
            (3, {"seg": rng.randrange(8)}), (1, {"info": rng.randrange(4)}),
            (1, {"chain": rng.randrange(8), "n": rng.randrange(6),
                 "tail": [["r", int(maxof(conf) * rng.uniform(.01, 3)),
                           rng.randrange(1000)]] if rng.random() < .8
                 else []}),
            (.8, {"rep": rng.randrange(8), "n": rng.randrange(4),
                  "times": rng.randint(2, 5),
                  "tail": [["r", rng.randint(1, 3000), rng.randrange(9)]]
                  if rng.random() < .5 else []}),
            (1, {"silo": rng.randrange(4)}),
            (2, {"of": rng.randrange(20), "edit": rng.choice(
                [None, "append", "chop", "double", "flip", "id"])})])
    if conf.get("max") and x < derived + .12:
        return {"fill": rng.choice([rng.randint(-120, 200),
                                    rng.randint(-60, 60),
                                    rng.randint(-1500, 1500)]),
                "s": rng.randrange(1000)}
    if conf.get("max") and x < derived + .2:
        return {"fit": rng.choice([rng.randint(-80, 120),
                                   rng.randint(-400, 400)]),
                "s": rng.randrange(1000)}
    if x < derived + .2 + edge:
        return gen_edge(rng)
    parts = []
    n = gen_len(rng, conf, big)
    np = wchoice(rng, [(6, 1), (2, 2), (1, 3)])
    for i in range(np):
        k = wchoice(rng, [(4, "r"), (1.2, "z"), (1.5, "p"), (1.5, "t"),
                          (1, "h"), (.6, "g"), (.5, "w"), (1.2, "m")])
        ln = n if np == 1 else rng.randint(1, n)
        if k in "zp" and rng.random() < .3:
            # compressible: many times a silo
            ln = min(int(ln * rng.choice([1, 8, 40])), 6000000)
        parts.append([k, ln, rng.randrange(100000) if k != "z"
                      else rng.choice([0, 255, 32, rng.randrange(256)])])
    if rng.random() < .06:
        parts = [["z", rng.randint(1, 8), rng.randrange(256)]]
    return parts


def gen_store(rng, conf, big=None, derived=.15, meta=.25, edge=.03):
    op = {"op": "store", "c": gen_content(rng, conf, big, derived, edge)}
    x = rng.random()
    if x < .25:
        op["via"] = "stdin"
    elif x < .45:
        op["via"] = "pipe"
        if rng.random() < .6:
            op["chunks"] = [rng.choice([1, 2, 100, 4096, 5000, 65536, 131072])
                            for _ in range(rng.randint(1, 8))]
    if rng.random() < .3:
        op["dash"] = 1
    ml = MIMES if "rmime" not in conf else conf["rmime"]
    if rng.random() < .5:
        op["mime"] = rng.choice(ml)
        if rng.random() < .1 and "rmime" not in conf:
            op["mime"] = word(rng, 8) + "/" + word(rng, 30)
    if rng.random() < meta:
        op["t"] = "metadata"
        if isinstance(op["c"], list) and rng.random() < .6:
            op["c"] = [["t", rng.randint(1, 2000), rng.randrange(1000)]]
        op["ref"] = rng.randrange(20)
        op["rform"] = rng.choice(FORMS)
        if rng.random() < .2:
            op["force"] = rng.choice(
                ["%x" % rng.getrandbits(256), "%x" % rng.getrandbits(256),
                 "00", "ff", "4161", "of"] +
                3 * [["near", 0]])
            if isinstance(op["force"], list):
                op["force"] = [rng.choice([8, 15, 16, 20, 23, 24, 24, 25, 31,
                                           rng.randrange(64)]),
                               rng.randrange(40), rng.randrange(1000)]
                if rng.random() < .5:
                    op["c"] = {"chain": rng.randrange(8),
                               "n": rng.randrange(6), "tail": [[
                                   "r", int(maxof(conf) *
                                            rng.uniform(.01, 3)),
                                   rng.randrange(1000)]]}
            op["fform"] = rng.choice(FORMS)
        if rng.random() < .2:
            op["tspell"] = "METADATA"
    elif rng.random() < .2:
        op["expl"] = 1
        op["tspell"] = rng.choice(["resource", "Resource"])
    return op


def long_mime(rng):
    n = rng.choice([250, 500, 507, 508, 509, 600, 1000, 2000, 3500, 4000,
                    5000, 20000])
    return "a/b+" + ("m" * n if rng.random() < .5 else "".join(
        rng.choice(CHARS[:62]) for _ in range(n)))


def gen_twins(rng, conf):
    """Big metadata objects whose identifiers share the first digits."""
    keep = rng.choice([8, 12, 15, 16, 17, 20, 23, 24, 25, rng.randrange(64)])
    m = maxof(conf)
    c = [["r", min(2000000, int(m * rng.uniform(1, 4))), rng.randrange(1000)]]
    ops = []
    for i in range(rng.choice([2, 2, 3])):
        if i and rng.random() < .4:
            c = c[:1] + [["r", rng.randint(1, 3000), rng.randrange(1000)]]
        elif i:
            c = [["r", min(2000000, int(m * rng.uniform(.01, 4))),
                  rng.randrange(1000)]]
        ops.append({"op": "store", "c": c, "t": "metadata", "ref": 0,
                    "force": [keep, -1 if i else rng.randrange(40),
                              rng.randrange(1000)]})
    return ops


def gen_again(rng):
    """Stores something which is there already, mostly in another way."""
    op = {"op": "store", "c": {"of": rng.randrange(30)},
          "via": rng.choice(["file", "stdin", "pipe"])}
    if rng.random() < .5:
        op["mime"] = rng.choice(["text/plain", "application/octet-stream"])
    return op


def gen_get(rng, z=.3):
    o = ""
    if rng.random() < z:
        o += "z"
    elif rng.random() < .1:
        o += "n"
    if rng.random() < .3:
        o += "o"
    if rng.random() < .15:
        o += "q"
    return {"op": "get", "k": rng.randrange(30), "form": rng.choice(FORMS),
            "o": o}


def gen_reindex(rng):
    return {"op": "reindex",
            "mode": rng.choice(["full", "full", "again", "args", "groups"]),
            "s": rng.randrange(1000), "cache": rng.randrange(2),
            "parts": rng.randint(2, 4), "rel": rng.randrange(2)}


def gen_cache(rng):
    return {"op": "cache", "how": rng.choice(
        ["rm", "rm", "zero", "short", "save", "restore", "ahead", "space"]),
        "n": rng.randint(1, 4)}


def gen_filter(rng):
    n = wchoice(rng, [(4, rng.randint(1, 12)), (2, rng.randint(10, 60)),
                      (.3, rng.randint(200, 2000))])
    lines = []
    for _ in range(n):
        lines.append([wchoice(rng, [(4, "in"), (3, "out"), (2, "near"),
                                    (1, "rec"), (.3, "hi"), (.3, "lo")]),
                      rng.randrange(40), rng.choice(FORMS),
                      rng.choice(["", "", "", " some name", "\tx"]),
                      rng.randrange(64)])
        if rng.random() < .15:
            lines.append(list(lines[-1]))
    nf = rng.choice([0, 0, 1, 2, 3])
    return {"op": "filter", "lines": lines, "v": int(rng.random() < .3),
            "r": rng.randrange(2), "s": int(rng.random() < .3), "files": nf,
            "dash": rng.choice([-1, -1, rng.randrange(max(1, nf))]),
            "of": int(rng.random() < .2)}


def gen_byid(rng):
    op = {"op": "byid", "keys": [
        [rng.randrange(200), wchoice(rng, [
            (2, rng.randint(0, 4)), (2, rng.randint(1, 16)), (1, 24)]),
            rng.choice(["", "", "upper", "full", "fullupper"]),
            rng.choice([0, 0, 0, 1, -1])]
        for _ in range(wchoice(rng, [(5, 1), (1, 2), (.5, 3)]))]}
    if rng.random() < .4:
        op["dump"] = 1
        if rng.random() < .5:
            op["type"] = rng.choice(["metadata", "resource", "warcinfo"])
        if rng.random() < .2:
            op["keys"] = []
    elif rng.random() < .3:
        op["e"] = 1
    if not op.get("dump") and rng.random() < .06:
        op["rep"] = rng.choice([127, 128, 254, 255, 256, 257, 258, 300, 512])
    if op.get("dump"):
        for k in op["keys"]:
            if k[2].startswith("full"):
                k[2] = ""
    return op


def gen_cgi(rng):
    return {"op": "cgi", "k": rng.randrange(30), "form": rng.choice(FORMS),
            "slash": rng.randrange(2),
            "ae": rng.choice([None, "", "gzip", "deflate", "identity",
                              "gzip, deflate, br", "br;q=1.0, gzip;q=0.8",
                              "gzip;q=0", "gzip;q=0.0, identity", "gzip;q=1",
                              "identity;q=1, gzip ; q=0.001", "*;q=0",
                              "deflate,gzip", "br, gzipped", "GZIP",
                              "x-gzip", "deflate;q=0.5,gzip;q=0.000"])}


def gen_cgibad(rng):
    op = {"op": "cgibad", "k": rng.randrange(30), "n": rng.randrange(1000),
          "slash": rng.randrange(4) and 1,
          "how": rng.choice(["chop", "near", "unknown", "longer", "lead",
                             "nohex", "prefix", "otherprefix", "warcinfo",
                             "segment", "silo", "absolute", "method",
                             "iface", "nopath", "args"])}
    if op["how"] == "longer":
        op["tail"] = rng.choice(["0", "/", " ", ".gz", "?x", "0" * 40, "/..",
                                 "\n"])
    elif op["how"] == "lead":
        op["tail"] = rng.choice(["/", "./", "0", "a/", "<", "//"])
        op["slash"] = 1
    elif op["how"] == "prefix":
        op["tail"] = rng.choice(["", "/", "x", "0" * 3])
    return op


def gen_mksilo(rng):
    return {"op": "mksilo", "n": wchoice(rng, [
        (3, rng.randrange(6)), (2, rng.randrange(30)),
        (1, rng.choice([99, 100, 101, 199, 200, 9999, 10000, 10001, 123456,
                        999999, 1000000, 99999999]))])}


def gen_clock(rng):
    """A time of day at which a clumsy date would show."""
    y = rng.choice([1970, 1999, 2000, 2001, 2024, 2025, 2026, 2027, 2038,
                    2100, 2399, 9999, rng.randint(1970, 2200)])
    k = rng.randrange(6)
    if k == 0:          # the turn of the year
        t = calendar.timegm((y, 12, 28, 0, 0, 0)) + \
            rng.randrange(0, 4 * 86400)
    elif k == 1:
        t = calendar.timegm((y, 1, 1, 0, 0, 0)) + rng.randrange(4 * 86400)
    elif k == 2:
        t = calendar.timegm((y, 2, 28, 0, 0, 0)) + rng.randrange(3 * 86400)
    elif k == 3:
        t = calendar.timegm((y, rng.randint(1, 12), rng.randint(1, 28),
                             rng.choice([0, 11, 12, 13, 23]),
                             rng.choice([0, 59]), rng.choice([0, 59])))
    elif k == 4:
        t = (1 << 31) + rng.choice([-2, -1, 0, 1, 1 << 31, (1 << 31) - 1])
    else:
        t = rng.randrange(1 << 33)
    op = {"op": "clock", "t": t}
    if rng.random() < .3 and y < 9000:
        op["n"] = rng.choice([1, 61, 3600, 86400, 10 ** 6])
    return op


def gen_maxsize(rng, conf):
    m = maxof(conf)
    return {"op": "maxsize", "v": max(6000, rng.choice(
        [m, m // 2, 2 * m, m + 1, m - 1, 3 * m, 6000, 20000]))}


# Requests to be refused; see Hist.subs() for the %words.
BADID = ["%NO", "%PFX%NO", "%LONG", "%SHORT", "%CHOP", "%NHEX", "%PFX%NHEX",
         "x%PFX%ID", "http://other.example/%ID", "%PFX", "", "/%ID", "%ID ",
         " %ID", "0x%ID", "%ID/", "<%PFX%ID>", "%PFX%PFX%ID"]
BAD = (
    [["get", i] for i in BADID + ["%WI", "%SEG"]] +
    [["get"], ["get", "%ID", "%ID"], ["get", "-x", "%ID"], ["get", "-o"],
     ["get", "-h"], ["get", "-o", "%BOX/nodir/x", "%ID"],
     ["get", "-q", "-z", "%NO"], ["get", "-o", "%BOX/out", "%NO"]] +
    [["store", "-t", "metadata", "-r", i, "%IN"] for i in
     BADID + ["%WI", "%SEG"]] +
    [["store", "-t", "metadata", "-r", "%ID", "-i", i, "%IN"] for i in
     BADID if i not in ("%NO", "%PFX%NO")] +
    [["store", "-t", "bogus", "%IN"], ["store", "-t", "warcinfo", "%IN"],
     ["store", "-t", "continuation", "%IN"], ["store", "-t", "", "%IN"],
     ["store", "-t", "resource", "-t", "resource", "%IN"],
     ["store", "-t", "metadata", "%IN"],
     ["store", "-t", "metadata", "-i", "%NO", "%IN"],
     ["store", "-r", "%ID", "%IN"], ["store", "-i", "%NO", "%IN"],
     ["store", "-t", "resource", "-r", "%ID", "%IN"],
     ["store", "-t", "resource", "-i", "%NO", "%IN"],
     ["store", "-t", "metadata", "-r", "%ID", "-r", "%ID", "%IN"],
     ["store", "-t", "metadata", "-r", "%ID", "-i", "%NO", "-i", "%NO",
      "%IN"],
     ["store", "%BOX/missing"], ["store", "%BOX"], ["store", "%IN", "%IN"],
     ["store", "%IN/x"], ["store", "-x", "%IN"], ["store", "-h"],
     ["store", "-m"], ["store", "-t"], ["store"], ["store", "-"],
     ["store", "-t", "metadata", "-r", "%ID"],
     ["store", "-m", "text/plain\nX: y", "%IN"],
     ["store", "-m", "text/plain\r\n", "%IN"],
     ["store", "-m", "t\x01", "%IN"], ["store", "-m", "%CTL", "%IN"],
     ["store", "-m", "%CTL", "-t", "metadata", "-r", "%ID", "%IN"], ["store", "-m", "x" * 5000, "%IN"],
     ["store", "-m", "x" * 4000, "-t", "metadata", "-r", "%ID", "%IN"],
     ["store", "-m", "forbidden/type", "%IN"],
     ["store", "-m", "forbidden/type", "-t", "metadata", "-r", "%ID",
      "%IN"],
     ["mksilo"], ["mksilo", "%TAKEN"], ["mksilo", "abc"], ["mksilo", ""],
     ["mksilo", "1x"], ["mksilo", "4294967296"], ["mksilo", "-5"],
     ["mksilo", "--", "-5"], ["mksilo", "99999999999999999999"],
     ["mksilo", "12", "13"], ["mksilo", "1.5"], ["mksilo", "-x", "77"],
     ["mksilo", "0%TAKEN", "x"], ["mksilo", " "],
     ["audit", "-x"], ["audit", "-i", "bogus"], ["audit", "-i"],
     ["audit", "-i", "ignore-metadata-record-i"],
     ["audit", "%BOX/missing"], ["audit", "%IN"], ["audit", "-h"],
     ["audit", "%BOX"], ["audit", "%SILO", "%BOX/missing"],
     ["rebuild", "-x"], ["rebuild", "%BOX/missing"], ["rebuild", "-h"],
     ["reindex", "-x"], ["reindex", "%BOX/missing"], ["reindex", "-h"],
     ["reindex", "%BOX"],
     ["byid", "-x"], ["byid", "-h"], ["byid", "xyz"], ["byid", "%NHEX"],
     ["byid", "http://other/%ID"], ["byid", "%CHOP-"],
     ["byid", "-e", "0 1"], ["byid", "-e", "zz"],
     ["dumpindex", "-x"], ["dumpindex", "-t"], ["dumpindex", "xyz"],
     ["dumpindex", "-t", "bogus"], ["dumpindex", "-t", ""],
     ["dumpindex", "%NHEX"], ["dumpindex", "-h"],
     ["dumpindex", "%ID", "%CHOPz"], ["dumpindex", "-t", "Metadata"],
     ["filter", "-x"], ["filter", "%BOX/missing"], ["filter", "-h"],
     ["filter", "%IN"], ["filter", "-", "-"], ["filter", "-o"],
     ["filter", "-o", "%BOX/nodir/x"], ["filter", "-s", "%IN"],
     ["housekeeping", "-x"], ["housekeeping", "x"], ["housekeeping", "-h"],
     ["info", "-x"], ["info", "x"], ["info", "-h"],
     ["nosuch"], ["GET", "%ID"], [""], ["stor"], ["store "], [],
     ["-h"], ["-x", "get", "%ID"], ["-c", "%BOX/missing", "get", "%ID"],
     ["-c", "%BOX", "get", "%ID"], ["-c", "%IN", "store", "%IN"],
     ["-c"], ["-j", "-c", "%CONF"]] +
    [["-j", x, y] for x, y in
     [("get", "%ID"), ("store", "%IN"), ("byid", "00"), ("audit", "%SILO"),
      ("mksilo", "77"), ("reindex", "%SILO"), ("filter", "%IN"),
      ("rebuild", "%SILO")]] +
    [["-j", "housekeeping"], ["-j", "dumpindex"], ["-j", "reindex"],
     ["cgi"], ["cgi", "x"], ["cgi", "-x"], ["stevedore", "-x"],
     ["stow"], ["stow", "-x"], ["stow", "%BOX/missing"],
     ["stow", "-h"]])
BADLINES = ["%CHOPz\n", "%SHORT\n", "%NHEX\n", "%PFX\n", "%ID\n%SHORT\n",
            "%ID", "%ID\n%ID", "%ID " + "x" * 9000 + "\n", "x\n",
            "%ID\n\n %ID\n"]


def gen_bad(rng, conf):
    args = list(rng.choice(BAD))
    op = {"op": "bad", "args": args, "k": rng.randrange(40)}
    if "%CTL" in args:
        t = rng.choice(["text/plain", "a/b", "x", ""])
        p = rng.randint(0, len(t))
        op["args"] = args = [x if x != "%CTL" else t[:p] + chr(rng.choice(
            [1, 7, 8, 9, 10, 11, 12, 13, 13, 27, 31, 127])) + t[p:]
                             for x in args]
    if args[:1] == ["filter"]:
        t = rng.choice(BADLINES)
        op["inp"] = t.encode("latin1").hex()
        if args[1:2] == ["-o"] or args[1:2] == ["-"]:
            op["inp"] = b"%ID\n".hex()
        if "%IN" in args:
            op["args"] = ["-" if x == "%IN" else x for x in args]
    elif args[:1] == ["store"] and args[1:2] not in (["%IN"],) and \
            "%IN" in args and rng.random() < .3:
        # from standard input instead
        if args.count("%IN") == 1:
            op["args"] = [x for x in args if x != "%IN"]
            op["inp"] = b"some input".hex()
    elif args[:1] == ["mksilo"] and rng.random() < .4:
        op["args"] = ["mksilo", rng.choice(["%d", "%d", "0x%x", "0%o"]) % (
            rng.choice([1, 1, 1, rng.randint(2, 9), 1 << 31, 1 << 32]) *
            (1 << 32) + rng.choice([-1, 0, 1, 5, 77, 100, 10001,
                                    rng.randrange(300),
                                    rng.randrange(1 << 32)]) % (1 << 32))]
    elif args == ["store", "%IN", "%IN"] and rng.random() < .5:
        op["args"] = ["store", "%IN"]
        op["file"] = ""
    return op


def gen_reading(rng):
    k = rng.choice(["get", "getz", "getall", "audit", "filter", "byid", "cgi",
                    "cgibad", "info", "missing"])
    if k == "info":
        return {"op": "info"}
    if k == "missing":
        return {"op": "missing", "k": rng.randrange(1000)}
    return GENS[k](rng, {}, {})


GENS = {
    "bad": lambda rng, conf, kw: gen_bad(rng, conf),
    "read": lambda rng, conf, kw: {"op": "read", "do": gen_reading(rng)},
    "store": lambda rng, conf, kw: gen_store(rng, conf, **kw),
    "again": lambda rng, conf, kw: gen_again(rng),
    "get": lambda rng, conf, kw: gen_get(rng),
    "getz": lambda rng, conf, kw: gen_get(rng, 1.0),
    "getall": lambda rng, conf, kw: {"op": "getall",
                                     "o": rng.choice(["", "", "z"])},
    "hk": lambda rng, conf, kw: {"op": "hk"},
    "reindex": lambda rng, conf, kw: gen_reindex(rng),
    "cache": lambda rng, conf, kw: gen_cache(rng),
    "ro": lambda rng, conf, kw: ({"op": "ro", "n": rng.randrange(6)}
                                 if rng.random() < .8 else
                                 {"op": "ro", "one": rng.randrange(6)}),
    "rw": lambda rng, conf, kw: {"op": "rw"},
    "maxsize": lambda rng, conf, kw: gen_maxsize(rng, conf),
    "mksilo": lambda rng, conf, kw: gen_mksilo(rng),
    "cgibad": lambda rng, conf, kw: gen_cgibad(rng),
    "audit": lambda rng, conf, kw: {"op": "audit",
                                    "args": rng.randrange(2),
                                    "rel": rng.randrange(2),
                                    "s": rng.randrange(1000)},
    "filter": lambda rng, conf, kw: gen_filter(rng),
    "byid": lambda rng, conf, kw: gen_byid(rng),
    "cgi": lambda rng, conf, kw: gen_cgi(rng),
    "rebuild": lambda rng, conf, kw: {"op": "rebuild",
                                      "replace": rng.randrange(2),
                                      "over": rng.randrange(3),
                                      "args": rng.randrange(2),
                                      "s": rng.randrange(1000)},
}


def gen_ops(rng, conf, weights, n, first=2, **kw):
    """n operations with the given weights, after some stores."""
    ops = []
    pairs = [(w, k) for k, w in weights.items()]
    for i in range(n):
        k = "store" if i < first else wchoice(rng, pairs)
        ops.append(GENS[k](rng, conf, kw))
    return ops


def gen_case(rng, weights, lo=4, hi=14, **kw):
    ck = {k: kw.pop(k) for k in ("small", "segm", "bits") if k in kw}
    conf = gen_conf(rng, **ck)
    if rng.random() < .05:
        conf["sname"] = rng.choice(["%s%n%d", ".a", "s" * 100, "si,lo;:=s"])
    first = kw.pop("first", 2)
    n = rng.randint(lo, hi)
    return {"conf": conf, "ops": gen_ops(rng, conf, weights, n, first, **kw)}


# -- shrinking -------------------------------------------------------------

def conf_shrinks(case):
    c = case["conf"]
    for k in list(c):
        d = dict(c)
        del d[k]
        yield dict(case, conf=d)


def content_shrinks(c):
    if isinstance(c, list):
        for i in range(len(c)):
            if len(c) > 1:
                yield c[:i] + c[i + 1:]
        for i, p in enumerate(c):
            if p[0] == "b":
                continue
            n = p[1]
            for m in (1, 100, n // 2, n * 3 // 4, n - n // 10, n - 1):
                if 0 < m < n:
                    yield c[:i] + [[p[0], m, p[2] if len(p) > 2 else 0]] + \
                        c[i + 1:]
            if p[0] not in "rz":
                yield c[:i] + [["r", n, 1]] + c[i + 1:]
            if p[0] == "r" and p[2:] != [1]:
                yield c[:i] + [["r", n, 1]] + c[i + 1:]
    elif isinstance(c, dict):
        yield [["r", 100, 1]]
        for k in list(c):
            if k in ("edit", "s") and c[k]:
                d = dict(c)
                del d[k]
                yield d


def hist_shrinks(case):
    for c in conf_shrinks(case):
        yield c
    ops = case["ops"]
    for i, op in enumerate(ops):
        if "c" in op:
            for c in content_shrinks(op["c"]):
                yield dict(case, ops=ops[:i] + [dict(op, c=c)] + ops[i + 1:])
        for k in list(op):
            if k in ("op", "c", "k", "n", "v", "ref", "args", "items",
                     "edits", "what"):
                continue
            if op[k] in (None, 0, ""):
                continue
            d = dict(op)
            del d[k]
            if k in ("lines", "keys", "do"):
                if isinstance(op[k], list) and len(op[k]) > 1:
                    n = len(op[k])
                    h = max(1, n // 2)
                    while h:
                        for s in range(0, n, h):
                            yield dict(case, ops=ops[:i] + [dict(
                                op, **{k: op[k][:s] + op[k][s + h:]})] +
                                ops[i + 1:])
                        h //= 2
                continue
            if k == "t":
                continue
            yield dict(case, ops=ops[:i] + [d] + ops[i + 1:])
