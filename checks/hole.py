"""Silos of more than 2 or 4 GB: the greatest part of them is a hole.

Storing and fetching do not read what they have no business with, so that
archives with silos of this size are made by extending a file.
"""
import os
import random
import resource

import gen
import hist
import warc
from core import Stop
from hist import Hist


def gen_hole(rng):
    n = rng.choice([1 << 31, 1 << 32, 1 << 33, 3 << 30, 3500 << 20,
                    (1 << 40) + 17, 5 << 30]) + rng.choice(
                        [0, -1, 1, -100, rng.randint(-3000, 3000)])
    conf = gen.gen_conf(rng)
    conf["max"] = 20000
    ops = []
    for _ in range(rng.randint(2, 6)):
        op = gen.gen_store(rng, {"max": None}, .1, 0, .2, 0)
        if not isinstance(op["c"], list) or "force" in op:
            op["c"] = [["r", rng.randint(1, 3000), rng.randrange(1000)]]
        ops.append(op)
    return {"hole": n, "conf": conf, "ops": ops,
            "room": rng.choice([rng.randint(0, 3000), rng.randint(0, 20000),
                                1 << 20, n]), "silo": rng.choice([0, 0, 3])}


def run_hole(check, case, box):
    h = Hist(box, case["conf"], check.bins["plain"], tags=check.tags)
    lim = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim[1], lim[1]))
        play(h, case)
    except Stop:
        pass
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, lim)
    h.o.nontrivial = h.o.labels.get("hole:store", 0) >= 2
    return h.o


def tail(fn, off):
    with open(fn, "rb") as f:
        f.seek(off)
        return f.read()


def fetch(h, objs, what):
    for ob in objs:
        r = h.a.run("get", "-q", ob.id)
        if not r.ok or r.out != ob.body:
            h.bad({"C01", "C05"}, "%s: get of %s in a big silo -> %s %r" % (
                what, ob.id, r.rc, r.err[-200:]))
        r = h.a.run("byid", "-e", ob.id[:24])
        if not r.ok or ob.id not in r.out.decode("latin1").lower():
            h.bad("C10", "%s: byid of %s in a big silo: %s" % (
                what, ob.id, r))
    for opt in ([], ["-s"]):
        r = h.a.run("filter", *opt, inp="".join(
            "%s\n" % ob.id for ob in objs).encode())
        if not r.ok or r.out:
            h.bad("C12", "%s: filter %s in a big silo: %s" % (what, opt, r))
    r = h.a.run("dumpindex")
    got = set()
    for l in r.out.decode("latin1").split("\n"):
        w = l.split()
        if len(w) == 5:
            try:
                got.add((w[0].lower(), int(w[1], 0), int(w[2]), int(w[3]),
                         w[4].lower()))
            except ValueError:
                h.bad("C10", "dumpindex: %r" % l)
    want = {e for _, e in warc.read_index(h.a.sdir)}
    if got != want:
        h.bad("C10", "%s: dumpindex says %s, the index %s" % (
            what, sorted(got - want)[:2], sorted(want - got)[:2]))


def play(h, case):
    a = h.a
    n = case["silo"]
    if n:
        h.op_mksilo({"n": n})
        with open(os.path.join(a.sdir, "_.cache"), "wb") as f:
            f.write(n.to_bytes(4, "big") * 2)
    ob0 = {"op": "store", "c": [["r", 200, 1]]}
    h.op_store(ob0)
    objs = [h.objs[i] for i in h.order]
    fn = a.silo_fn(n)
    if not os.path.exists(fn):
        return
    try:
        os.truncate(fn, case["hole"])
    except OSError:
        h.o.label("hole:not here")
        return
    a.set_max(case["hole"] + case["room"])
    size = case["hole"]
    for op in case["ops"]:
        argv, body, oid, ob, why = h.store_args(op)
        if why or oid in h.objs:
            continue
        before = set(a.silos())
        r = h.do_run_store(argv, body, op)
        if not r.ok:
            h.bad({"C01", "C05"}, "store with a silo of %d bytes failed: %s" %
                  (size, r))
        if not r.out.decode("latin1").strip().lower().endswith(oid):
            h.bad({"C01", "C02"}, "store printed %r" % r.out)
        now = os.path.getsize(fn)
        if now > a.max:
            h.bad("C05", "silo of %d bytes, the limit is %d" % (now, a.max))
        if now == size:
            new = sorted(set(a.silos()) - before)
            if len(new) != 1:
                # a segmented one, or in a silo made by an earlier store
                new = [x for x in sorted(a.silos()) if x != n][-1:]
            if new:
                recs = warc.parse_silo(tail(a.silo_fn(new[0]), 0))
                x = recs[-1]
                if len(recs) > 1 and x.segno is None and \
                        x.blen + 24 + 420 <= a.max - size:
                    h.bad("C05", "object of %d bytes compressed was not put "
                          "in the silo of %d bytes, limit %d" % (
                              x.blen, size, a.max))
            h.o.label("hole:no room")
        else:
            try:
                recs = warc.parse_silo(tail(fn, size))
            except warc.Bad as e:
                h.bad({"C05", "C04", "C01"},
                      "appended to %d bytes: %s" % (size, e))
            if len(recs) != 1 or recs[0].body != body:
                h.bad({"C05", "C04", "C01"}, "appended to %d bytes: %d "
                      "records" % (size, len(recs)))
            key = (oid + "0" * 24)[:24]
            if not any(e[0] == key and e[2] == n and e[3] == size
                       for _, e in warc.read_index(a.sdir)):
                h.bad({"C01", "C05"}, "no index entry for the record at %d" %
                      size)
            h.o.label("hole:store")
            size = now
        objs.append(ob)
        h.objs[oid] = ob
        h.order.append(oid)
        h.o.steps += 1
    fetch(h, objs, "before housekeeping")
    r = a.run("housekeeping")
    if not r.ok:
        h.bad("C09", "housekeeping failed: %s" % r)
    h.since.add("hk")
    fetch(h, objs, "after housekeeping")
    r = a.run("store", inp=objs[-1].body)
    if objs[-1].type == "resource" and (
            not r.ok or os.path.getsize(fn) != size):
        h.bad({"C03", "C05"}, "storing again in a big silo: %s" % r)
