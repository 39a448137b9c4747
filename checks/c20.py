import fnmatch
import json
import os
import re
import shutil
import subprocess
import time

import build
import gen
import hist
import proto
from core import Stop
from hist import Hist, Obj, sha
from histcheck import HistCheck

MTREE = os.path.join(build.VERIF, "compat/bin")
RACE = """#!/bin/bash
%s/mtree "$@" > "%s/listing" || exit 1
. "%s/race.sh"
cat "%s/listing"
"""


class THist(Hist):
    """Histories of a directory tree which is stowed now and then."""

    def setup(self, case):
        self.tree = {}              # path -> bytes | None for directories
        self.root = os.path.join(self.box, case.get("root", "tree"))
        os.makedirs(self.root)
        self.jobn = 0

    # -- the tree ------------------------------------------------------------

    def full(self, p):
        return os.path.join(os.fsencode(self.root), p)

    def files(self):
        return sorted(p for p, b in self.tree.items()
                      if isinstance(b, bytes))

    def dirs(self):
        return [b""] + sorted(p for p, b in self.tree.items() if b is None)

    def op_tree(self, op):
        for e in op["edits"]:
            self.edit(e)

    def edit(self, e):
        k = e[0]
        fs = self.files()
        if k == "rm" and fs:
            p = fs[e[1] % len(fs)]
            os.unlink(self.full(p))
            del self.tree[p]
            return
        if k == "chg" and fs:
            p = fs[e[1] % len(fs)]
            b = self.resolve(e[2])[:700000]
            with open(self.full(p), "wb") as f:
                f.write(b)
            self.tree[p] = b
            return
        if k == "mv" and fs:
            p = fs[e[1] % len(fs)]
            q = p + b".moved"
            if q in self.tree or len(os.path.basename(q)) > 250:
                return
            os.rename(self.full(p), self.full(q))
            self.tree[q] = self.tree.pop(p)
            return
        if k == "touch" and fs:
            os.utime(self.full(fs[e[1] % len(fs)]), (e[2], e[2]))
            return
        if k in ("rm", "chg", "mv", "touch"):
            return
        ds = self.dirs()
        d = ds[e[1] % len(ds)]
        name = e[2].encode("utf-8", "surrogateescape")
        p = os.path.join(d, name) if d else name
        if p in self.tree or len(p) > 900:
            return
        if k == "many":
            for i in range(e[3]):
                q = p + b"%d" % i
                if q in self.tree:
                    continue
                b = b"%d %d %s" % (i, e[4], name[:9])
                with open(self.full(q), "wb") as f:
                    f.write(b)
                self.tree[q] = b
            return
        if k == "dir":
            if b"\n" in p:
                return          # the mtree here prints it as two lines
            os.mkdir(self.full(p))
            self.tree[p] = None
        elif k == "file":
            b = self.resolve(e[3])[:700000]
            with open(self.full(p), "wb") as f:
                f.write(b)
            self.tree[p] = b
        elif k == "same" and fs:
            b = self.tree[fs[e[3] % len(fs)]]
            with open(self.full(p), "wb") as f:
                f.write(b)
            self.tree[p] = b
        elif k == "hard" and fs:
            q = fs[e[3] % len(fs)]
            shutil.copyfile(self.full(q), self.full(p) + b"")
            self.tree[p] = self.tree[q]
        elif k == "empty":
            open(self.full(p), "w").close()
            self.tree[p] = b""
        elif k == "link":
            os.symlink(e[3], self.full(p))
            self.tree[p] = ("link",)
        elif k == "fifo":
            os.mkfifo(self.full(p))
            self.tree[p] = ("fifo",)

    def selected(self, excl, base=b""):
        """The non-empty regular files which are not excluded."""
        res = {}
        for p, b in self.tree.items():
            if not isinstance(b, bytes) or not b:
                continue
            if base:
                if not p.startswith(base + b"/"):
                    continue
                p = p[len(base) + 1:]
            if any(fnmatch.fnmatchcase(w.decode("latin1"), x)
                   for w in p.split(b"/") for x in excl):
                continue
            res[p] = b
        return res

    # -- stow ------------------------------------------------------------------

    def op_stow(self, op):
        a = self.a
        self.sync()
        job = op.get("job", "j")
        excl = op.get("excl", [])
        traffic = os.path.join(self.box, "traffic")
        exfn = os.path.join(self.box, "exclude")
        # further jobs are for directories within the tree
        ds = [d for d in self.dirs()]
        jobs = [(job + "x" * n, ds[k % len(ds)] if n else b"")
                for n, k in enumerate([0] + op.get("jobs", []))]
        cmd = "exec %s -c %s stevedore" % (a.binary, a.cfgfn)
        if op.get("tee"):
            cmd = "tee -a %s | %s -c %s stevedore" % (traffic, a.binary,
                                                     a.cfgfn)
        if os.path.exists(traffic):
            os.unlink(traffic)
        other = None
        if op.get("client"):
            # a configuration of its own for the client
            other = os.path.join(self.box, "client.conf")
            text = hist.conf_text({"prefix": "http://client/x/", "bits": 64,
                                   "max": 20000},
                                  os.path.join(self.box, "client/"))
        else:
            other = os.path.join(self.box, "stow.conf")
            text = hist.conf_text(a.conf, a.sdir + "/")
        for k, (jn, base) in enumerate(jobs):
            where = self.root
            if base:
                # any name will do for the configuration
                where = os.path.join(self.box, "base%d" % k)
                if os.path.islink(where):
                    os.unlink(where)
                os.symlink(self.full(base), where.encode())
                where += "/."
            text += "stow.%s:\n\tdirectory %s\n" % (
                jn, where + "/" * op.get("slash", 0))
            if excl:
                text += "\texclude %s\n" % exfn
            text += "\tcmd %s\n" % cmd
        with open(other, "w") as f:
            f.write(text)
        with open(exfn, "w") as f:
            f.write("".join(x + "\n" for x in excl))
        bindir = MTREE
        race = []
        if op.get("race"):
            bindir, race = self.make_race(op["race"], excl)
        befores = [self.selected(excl, base) for jn, base in jobs]
        before = befores[0]
        for p, new in race:
            self.tree[p] = new
        had = set(self.objs)
        t0 = int(time.time())
        r = a.run("-c", other, "stow", *[jn for jn, base in jobs],
                  cfg=False, env={"PATH": bindir + ":/usr/bin:/bin"})
        t1 = int(time.time())
        if r.crashed or not r.ok:
            self.bad("C20", "stow failed: %s" % str(r)[-1500:])
        self.o.label("stow")
        self.o.steps += 1
        now = self.selected(excl)
        newobjs = {}
        # what one job excludes can be within the directory of another
        for b in [b for jn, base in jobs
                  for b in self.selected(excl, base).values()]:
            oid = sha(b)[:a.idsize]
            if oid not in self.objs and oid not in newobjs:
                newobjs[oid] = Obj(oid, "resource", b,
                                   "application/octet-stream", None, t0, t1)
        self.o.label("files", len(now))
        self.o.label("files:new", len(newobjs))
        # the listings and the metadata
        recs = self.new_records()
        metas = {}
        for m in recs:
            if m.type == "metadata":
                metas.setdefault(m.get("WARC-Refers-To"), []).append(m)
        if len(jobs) > 1:
            self.o.label("stow:several jobs")
        listings = []
        for (jn, base), bf in zip(jobs, befores):
            listing = self.listing(excl, bindir != MTREE, base)
            listings.append(listing)
            lid = sha(listing)[:a.idsize]
            if not listing:
                self.o.label("stow:empty tree")
            if lid in self.objs or lid in newobjs:
                self.o.label("stow:unchanged tree")
            else:
                newobjs[lid] = Obj(lid, "resource", listing,
                                   "application/octet-stream", None, t0, t1)
        for (jn, base), bf, listing in zip(jobs, befores, listings):
            lid = sha(listing)[:a.idsize]
            ref = "<%s%s>" % (a.prefix, lid)
            mine = [m for m in metas.get(ref, []) if self.is_for(m, jn)]
            # within the same second it may be the same
            same = [o for o in self.objs.values() if o.type == "metadata" and
                    o.ref == a.prefix + lid and o.t1 >= t0 - 1]
            if len(mine) < 1 and not same or len(mine) > 1:
                self.bad("C20", "stow of %s added %d metadata records" %
                         (jn, len(mine)))
            for m in mine:
                metas[ref].remove(m)
                rid = m.get("WARC-Record-ID").rsplit("/", 1)[1][:-1]
                if m.segno is not None:
                    self.bad("C20", "metadata is segmented")
                self.judge_meta(m, lid, listing, jn, bf, race, t0, t1)
                newobjs[rid] = Obj(rid, "metadata", m.body,
                                   "application/json", a.prefix + lid, t0, t1)
        for ms in metas.values():
            if ms:
                self.bad("C20", "stow added other metadata, %r" %
                         ms[0].body[:300])
        for rid in newobjs:
            if newobjs[rid].type == "metadata":
                if ("STOWED" in r.err.decode("latin1")) and \
                        (a.prefix + rid) not in r.err.decode("latin1"):
                    self.bad("C20", "stow does not print %s: %r" %
                             (rid, r.err[-300:]))
        for ob in newobjs.values():
            ob.idspell = ob.id
            self.objs[ob.id] = ob
            self.order.append(ob.id)
        self.sync(tags={"C20"})
        for ob in newobjs.values():
            for n in self.silo_recs:
                for rec in self.silo_recs[n]:
                    if rec.segno is not None and rec.get(
                            "WARC-Record-ID").endswith(ob.id + ">"):
                        ob.segmented = True
        # nothing but these was added
        self.strict(newobjs)
        for oid in list(newobjs)[:40]:
            self.check_get(self.objs[oid])
        if op.get("tee"):
            self.judge_traffic(traffic, had)

    def strict(self, newobjs):
        seen = {}
        for n in self.silo_recs:
            for r in self.silo_recs[n]:
                if r.type in ("resource", "metadata"):
                    i = r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1].lower()
                    seen[i] = seen.get(i, 0) + 1
                    if i not in self.objs:
                        self.bad("C20", "stow stored %s, %d bytes, which is "
                                 "not in the tree" % (i, len(r.body)))
        for i in newobjs:
            if i not in seen:
                self.bad("C20", "stow did not store %s (%r)" %
                         (i, newobjs[i].body[:40]))
            if seen[i] != 1:
                self.bad("C20", "stow stored %s %d times" % (i, seen[i]))

    def new_records(self):
        """The records in the silos which were not there at the last sync."""
        import warc
        res = []
        for n, fn in self.a.silos().items():
            d = open(fn, "rb").read()
            old = len(self.silo_data.get(n, b""))
            try:
                res += warc.parse_silo(d, old)
            except warc.Bad as e:
                self.bad({"C20", "C04"}, "silo %d: %s" % (n, e))
        return res

    @staticmethod
    def is_for(m, job):
        try:
            return json.loads(m.body.decode())[1]["target"] == job
        except (ValueError, KeyError, IndexError, TypeError):
            return True

    def listing(self, excl, raced, base=b""):
        if raced:
            return open(os.path.join(self.box, "listing"), "rb").read()
        argv = [os.path.join(MTREE, "mtree"), "-n", "-c", "-Ksha256digest",
                "-j", "-p", self.full(base) if base else self.root]
        if excl:
            argv += ["-X", os.path.join(self.box, "exclude")]
        # no trailing slash: mtree does not print the path anyway
        r = subprocess.run(argv, stdout=subprocess.PIPE, env=self.a.env)
        if r.returncode:
            raise RuntimeError("mtree failed")
        return r.stdout

    def op_prelist(self, op):
        """The server gets the listing of the tree before the files."""
        with open(os.path.join(self.box, "exclude"), "w") as f:
            f.write("".join(x + "\n" for x in op.get("excl", [])))
        b = self.listing(op.get("excl", []), False)
        if b:
            self.o.label("listing beforehand")
            self.op_store({"op": "store", "c": [["b", b.hex()]]})

    def make_race(self, spec, excl):
        """An mtree after which files change."""
        d = os.path.join(self.box, "bin")
        os.makedirs(d, exist_ok=True)
        sel = sorted(self.selected(excl))
        # the same file of several names, or what is there, is no upload
        ids = {}
        for p in sel:
            ids.setdefault(sha(self.tree[p])[:self.a.idsize], []).append(p)
        race = []
        sc = ""
        for k, c in spec:
            if not sel:
                break
            p = sel[k % len(sel)]
            i = sha(self.tree[p])[:self.a.idsize]
            if len(ids[i]) > 1 or i in self.objs or \
                    any(p == x for x, _ in race):
                continue
            new = self.resolve(c)[:300000] or b"z"
            fn = os.path.join(self.box, "new%d" % len(race))
            with open(fn, "wb") as f:
                f.write(new)
            race.append((p, new))
            q = self.full(p).replace(b"'", b"'\\''").decode(
                "latin1")
            sc += "cat '%s' > '%s'\n" % (fn, q)
        with open(os.path.join(self.box, "race.sh"), "w",
                  encoding="latin1") as f:
            f.write(sc)
        with open(os.path.join(d, "mtree"), "w") as f:
            f.write(RACE % (MTREE, self.box, self.box, self.box))
        os.chmod(os.path.join(d, "mtree"), 0o755)
        if race:
            self.o.label("files changed under way", len(race))
        return d, race

    def judge_meta(self, m, lid, listing, job, before, race, t0, t1):
        a = self.a
        if m.get("WARC-Refers-To") != "<%s%s>" % (a.prefix, lid):
            self.bad("C20", "the metadata refers to %r, the listing is %s" %
                     (m.get("WARC-Refers-To"), lid))
        try:
            j = json.loads(m.body.decode())
        except ValueError as e:
            self.bad("C20", "the metadata is no JSON (%s): %r" % (e, m.body))
        if not isinstance(j, list) or len(j) != 2 or \
                not isinstance(j[1], dict):
            self.bad("C20", "unexpected metadata %r" % j)
        d = j[1]
        if d.get("mtree") != "sha256:" + sha(listing):
            self.bad("C20", "the metadata has the listing %r, not %s" %
                     (d.get("mtree"), sha(listing)))
        if d.get("target") != job:
            self.bad("C20", "the metadata has the target %r, not %s" %
                     (d.get("target"), job))
        if not t0 - 1 <= d.get("time", 0) <= t1 + 1:
            self.bad("C20", "the metadata has the time %r" % d.get("time"))
        want = {}
        for p, new in race:
            o = before[p]
            if sha(o)[:a.idsize] != sha(new)[:a.idsize]:
                want["sha256:" + sha(o)] = "id:" + sha(new)[:a.idsize]
        if d.get("changed", {}) != want:
            self.bad("C20", "the metadata has the changed files %r, they "
                     "are %r" % (d.get("changed"), want))
        if d.get("missing"):
            self.bad("C20", "the metadata has missing files %r" %
                     d["missing"])
        # every file of the tree is in the listing
        for p, b in before.items():
            if sha(b).encode() not in listing:
                self.bad("C20", "the listing lacks %r" % p)

    def judge_traffic(self, fn, had):
        """What went over the wire."""
        p = proto.Parser()
        msgs = p.feed(open(fn, "rb").read())
        if p.buf:
            self.bad("C20", "stow ended within a message")
        cur = None
        n = 0
        for c, b in msgs:
            if c != proto.DATA:
                continue
            if b:
                cur = (cur or b"") + b
                continue
            i = sha(cur or b"")[:self.a.idsize]
            if i in had:
                self.bad("C20", "stow sent %s, which the server has" % i)
            if i not in self.objs:
                self.bad("C20", "stow sent %s, which is not in the tree" % i)
            n += 1
            cur = None
        if cur is not None:
            self.bad("C20", "stow did not end an object")
        self.o.label("uploads", n)

    def final(self, get=True, o=""):
        Hist.final(self, get, o)


NAMES = ["a", "b", "file", "x.tmp", "keep.c", "type=dir", "..x", ".hidden",
         "sp ace", " lead", "trail ", "#hash", "back\\slash", "end\\",
         "\\", "new\nline", "tab\there", "star*", "[x]", "qu'ote\"s", "$HOME",
         "-n", "--", "é", "日本語のファイル", "\udce9latin", "\x01\x7f", "=",
         "sha256digest=00", "%s%n", "a" * 200, "é" * 120, "\\s", "\\040x",
         "~", "!", "{}", "/set".replace("/", ":"), "..."]
EXCL = ["*.tmp", "a", "keep*", "*.moved", "sub?", "d[0-3]", "nomatch",
        "file"]


def gen_name(rng):
    x = rng.random()
    if x < .55:
        n = rng.choice(NAMES)
    elif x < .8:
        n = "f%d" % rng.randrange(50)
    else:
        n = "".join(chr(rng.choice([rng.randint(1, 127), rng.randint(33, 126),
                                    rng.randint(160, 0x2fff)]))
                    for _ in range(rng.randint(1, 20)))
    n = n.replace("/", "_").replace("\0", "_")
    if n in (".", ".."):
        n = "dot"
    if rng.random() < .3:
        n += str(rng.randrange(30))
    while len(n.encode("utf-8", "surrogateescape")) > 250:
        n = n[:-1]
    return n


def gen_fcontent(rng, conf):
    x = rng.random()
    if x < .45:
        return [["r", rng.randint(1, 200), rng.randrange(100000)]]
    if x < .6:
        n = 131072 * rng.choice([0, 1, 2]) + rng.choice(
            [0, 1, 31, 32, 33, 254, 255, 256, 257])
        return [[rng.choice("rtz"), max(1, n), rng.randrange(1000)]]
    return gen.gen_content(rng, conf, .2)


def gen_edits(rng, conf, n, big):
    out = []
    for _ in range(n):
        k = gen.wchoice(rng, [(6, "file"), (2.5, "dir"), (1, "same"),
                              (.7, "empty"), (.5, "link"), (.2, "fifo"),
                              (.6, "rm"), (1, "chg"), (.5, "mv"),
                              (.3, "touch"), (.3, "many")])
        e = [k, rng.randrange(100)]
        if k in ("file", "dir", "same", "empty", "link", "fifo", "many"):
            e.append(gen_name(rng))
        if k == "file":
            e.append(gen_fcontent(rng, conf))
        elif k == "chg":
            e.append(gen_fcontent(rng, conf))
        elif k == "same":
            e.append(rng.randrange(100))
        elif k == "link":
            e.append(rng.choice(["x", "/etc/passwd", "../..", "sp ace",
                                 "nowhere\\"]))
        elif k == "touch":
            e.append(rng.randrange(2000000000))
        elif k == "many":
            e[2] = e[2][:20]
            e += [rng.randint(10, 80 if not big else 700),
                  rng.randrange(3)]
        out.append(e)
    return out


class Check(HistCheck):
    pid = "C20"
    technique = ("model-based stateful testing with generated directory "
                 "trees")
    rule = ("A case is a history of a generated directory tree which is "
            "stowed at several times, in between changed, and after which "
            "the server's archive is compared with the tree. Non-trivial: "
            "at least two runs of stow, and at least three non-empty files.")

    def gen(self, rng, i, tier):
        conf = gen.gen_conf(rng)
        if "rmime" in conf and conf["rmime"] != ["*"]:
            conf["rmime"] = ["application/octet-stream", "text/plain"]
            conf["mmime"] = ["application/json", "text/plain",
                             "application/octet-stream"]
        ops = []
        big = i % 50 == 7
        if conf["max"]:
            # the metadata has to fit
            conf["max"] = max(conf["max"], 7000)
        if rng.random() < .3:
            ops.append(gen.gen_store(rng, conf, .2, meta=.1))
        ops.append({"op": "tree", "edits": gen_edits(
            rng, conf, rng.randint(1, 25), big)})
        for _ in range(rng.randint(1, 3)):
            op = {"op": "stow", "job": rng.choice(
                ["j", "home", "a.b", "x_1-2"])}
            for k, p in (("tee", .6), ("client", .3), ("slash", .2)):
                if rng.random() < p:
                    op[k] = 1
            if rng.random() < .1:
                op["jobs"] = [rng.randrange(50)
                              for _ in range(rng.randint(1, 3))]
            if rng.random() < .35:
                op["excl"] = rng.sample(EXCL, rng.randint(1, 3))
            if rng.random() < .12:
                op["race"] = [[rng.randrange(100), gen_fcontent(rng, conf)]
                              for _ in range(rng.randint(1, 3))]
                op.pop("jobs", 0)
            if rng.random() < .15 and "race" not in op:
                ops.append({"op": "prelist", "excl": op.get("excl", [])})
            ops.append(op)
            if rng.random() < .7:
                ops.append({"op": "tree", "edits": gen_edits(
                    rng, conf, rng.randint(1, 6), False)})
            if rng.random() < .3:
                ops.append({"op": rng.choice(["hk", "hk", "getall"])})
            if rng.random() < .2:
                ops.append(gen.gen_store(rng, conf, .2, meta=.1))
        ops.append({"op": "stow", "job": "last", "tee": 1})
        case = {"conf": conf, "ops": ops, "tz": rng.choice(self.tz)}
        if rng.random() < .3:
            case["root"] = rng.choice(["tree/sub/dir", "t.x", "T"])
        if rng.random() < self.asan_share:
            case["flavour"] = "asan"
        return case

    def run(self, case, box):
        h = THist(box, case.get("conf", {}),
                  self.bins[case.get("flavour", "plain")],
                  tags=self.tags, env={"TZ": case.get("tz", "UTC")})
        h.setup(case)
        h.play(case["ops"])
        h.o.nontrivial = h.o.labels.get("stow", 0) >= 2 and \
            h.o.labels.get("files", 0) >= 3
        return h.o

    def shrinks(self, case):
        ops = case["ops"]
        for i, op in enumerate(ops):
            def put(o):
                return dict(case, ops=ops[:i] + [o] + ops[i + 1:])
            if op["op"] == "tree":
                ed = op["edits"]
                h = len(ed) // 2
                while h:
                    for s in range(0, len(ed), h):
                        yield put(dict(op, edits=ed[:s] + ed[s + h:]))
                    h //= 2
                for j, e in enumerate(ed):
                    for k, v in enumerate(e):
                        if isinstance(v, list):
                            for c in gen.content_shrinks(v):
                                yield put(dict(op, edits=ed[:j] + [
                                    e[:k] + [c] + e[k + 1:]] + ed[j + 1:]))
                        if e[0] == "many" and k == 3 and v > 1:
                            for w in (v // 2, v - v // 8, v - 1):
                                yield put(dict(op, edits=ed[:j] + [
                                    e[:k] + [w] + e[k + 1:]] + ed[j + 1:]))
            elif op["op"] == "stow":
                for k in ("tee", "client", "slash", "jobs", "excl", "race"):
                    if k in op:
                        d = dict(op)
                        del d[k]
                        yield put(d)
        for c in gen.conf_shrinks(case):
            yield c
