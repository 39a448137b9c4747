"""Builds AardWARC (and the C harnesses) from /repo's current working tree.

Everything is compiled out of tree, under a cache directory keyed by a hash of
the sources, the flags and the compat header, so that a check which finds its
build already made does not make it again.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AARDWARC_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")

BASE = ["-std=gnu99", "-include", os.path.join(VERIF, "compat/freebsd.h"),
        "-DLIBBSD_NETBSD_VIS", "-isystem", "/usr/include/x86_64-linux-gnu/bsd",
        "-DLIBBSD_OVERLAY", '-DGITREV="verif"', "-w"]
LIBS = ["-Wl,--no-as-needed", "-lbsd", "-lmd", "-lm", "-lz"]

FLAVOURS = {
    # what the project builds, minus fortify so that interposition sees libc
    "plain": ("gcc", ["-O1", "-g", "-U_FORTIFY_SOURCE"], []),
    "asan": ("gcc", ["-O1", "-g", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer",
                     "-fsanitize=address,undefined",
                     "-fno-sanitize=alignment"],
             ["-fsanitize=address,undefined"]),
    "fuzz": ("clang", ["-O1", "-g", "-U_FORTIFY_SOURCE",
                       "-fno-omit-frame-pointer",
                       "-fsanitize=fuzzer-no-link,address"],
             ["-fsanitize=address"]),
}


# For measuring coverage (tools/cov.py)
for _f in ("plain", "asan"):
    for _l in FLAVOURS[_f][1:]:
        _l.extend(os.environ.get("VERIF_CFLAGS", "").split())


class BuildError(Exception):
    pass


def sources():
    mk = open(os.path.join(REPO, "Makefile"), errors="replace").read()
    mk = mk.replace("\\\n", " ")
    srcs = []
    for m in re.finditer(r"^SRCS\s*\+?=\s*(.*)$", mk, re.M):
        for w in m.group(1).split("#")[0].split():
            if w.endswith(".c"):
                srcs.append(w)
    if not srcs:
        srcs = [os.path.basename(p) for p in
                sorted(glob.glob(os.path.join(REPO, "*.c")))]
    return srcs


def tree_hash(extra=()):
    h = hashlib.sha256()
    names = sources() + [os.path.basename(p) for p in
                         sorted(glob.glob(os.path.join(REPO, "*.h")))]
    for n in names:
        h.update(n.encode() + b"\0")
        try:
            with open(os.path.join(REPO, n), "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
        h.update(b"\0")
    with open(os.path.join(VERIF, "compat/freebsd.h"), "rb") as f:
        h.update(f.read())
    for e in extra:
        if isinstance(e, str) and os.path.isfile(e):
            with open(e, "rb") as f:
                h.update(f.read())
        h.update(repr(e).encode())
    return h.hexdigest()[:24]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd),
                                     r.stdout.decode(errors="replace")[-4000:]))


class _Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _prune(prefix, keep):
    ds = [d for d in glob.glob(os.path.join(CACHE, prefix + "-*"))
          if os.path.isdir(d)]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[keep:]:
        if os.path.getmtime(d) > time.time() - 7200:
            continue            # may be in use
        shutil.rmtree(d, ignore_errors=True)


def objects(flavour, main=True):
    """Compiles every source; returns (dir, [objects])."""
    cc, cflags, _ = FLAVOURS[flavour]
    extra = [cc] + cflags + BASE[3:]
    h = tree_hash(extra)
    d = os.path.join(CACHE, "%s-%s" % (flavour, h))
    srcs = sources()
    with _Lock(flavour):
        if not os.path.exists(os.path.join(d, ".done")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

            def one(s):
                _run([cc] + cflags + BASE + ["-I", REPO, "-c",
                     os.path.join(REPO, s), "-o",
                     os.path.join(d, s[:-2].replace("/", "_") + ".o")])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(one, srcs))
            open(os.path.join(d, ".done"), "w").close()
        os.utime(d)
        _prune(flavour, 4)
    return d, [os.path.join(d, s[:-2].replace("/", "_") + ".o") for s in srcs]


def binary(flavour="plain"):
    cc, _, ld = FLAVOURS[flavour]
    d, objs = objects(flavour)
    src = os.path.join(VERIF, "c", "clock.c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:8]
    out = os.path.join(d, "aardwarc-" + h)
    with _Lock(flavour):
        if not os.path.exists(out):
            _run(["gcc", "-O1", "-g", "-w", "-c", src, "-o", out + ".o"])
            _run([cc, "-o", out + ".tmp"] + ld + [out + ".o"] + objs + LIBS)
            os.rename(out + ".tmp", out)
    return out


def harness(src, flavour="plain", ldextra=()):
    """Links one of /verif/c/*.c with every repository object but main's."""
    cc, cflags, ld = FLAVOURS[flavour]
    d, objs = objects(flavour)
    srcp = os.path.join(VERIF, "c", src)
    hh = hashlib.sha256(open(srcp, "rb").read() +
                        repr(ldextra).encode()).hexdigest()[:8]
    out = os.path.join(d, src[:-2] + "-" + hh)
    with _Lock(flavour + "-h"):
        if not os.path.exists(out):
            o = out + ".o"
            _run([cc] + cflags + BASE + ["-I", REPO, "-c", srcp, "-o", o])
            # main.c's main() is renamed out of the way
            mo = []
            for p in objs:
                if os.path.basename(p) == "main.o":
                    q = os.path.join(d, "main.renamed.o")
                    _run(["objcopy", "--redefine-sym",
                          "main=aardwarc_main", p, q])
                    mo.append(q)
                else:
                    mo.append(p)
            _run([cc, "-o", out + ".tmp"] + ld + list(ldextra) + [o] + mo +
                 LIBS + ["-ldl"])
            os.rename(out + ".tmp", out)
    return out


def tool(name):
    """Builds one of /verif/c/*.c which has nothing to do with the repository."""
    src = os.path.join(VERIF, "c", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "%s-%s" % (name, h))
    with _Lock(name):
        if not os.path.exists(out):
            os.makedirs(CACHE, exist_ok=True)
            _run(["gcc", "-O1", "-g", "-w", "-o", out + ".tmp", src])
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    for f in sys.argv[1:] or ["plain"]:
        print(binary(f) if f in FLAVOURS else tool(f))
