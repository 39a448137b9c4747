"""Random small changes: automut.py -o OUT [-n COUNT] [-s SEED] [-b SECONDS]

Each change is one token or statement of one line of one source file.  Those
which build and pass the project's tests are given to the checks, the likely
ones first, until one notices.  What is left is for a human to look at.
"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIRST = {
    "config.c": "C22 C23 C24", "getjob.c": "C01 C08 C07 C14 C19 C16 C24",
    "gzip.c": "C07 C18 C04 C14", "header.c": "C08 C04 C13 C24 C14",
    "ident.c": "C02 C12 C10 C23", "index.c": "C09 C10 C16 C24 C17 C15 C11",
    "main.c": "C22 C23", "main_audit.c": "C13 C24 C16",
    "main_byid.c": "C10 C23", "main_cgi.c": "C19 C23 C16",
    "main_dumpindex.c": "C10", "main_filter.c": "C12 C16",
    "main_get.c": "C01 C08 C07 C16 C23", "main_housekeeping.c": "C09 C23",
    "main_info.c": "C23", "main_mksilo.c": "C25 C23",
    "main_rebuild.c": "C18 C24 C16", "main_reindex.c": "C11 C15 C24",
    "main_stevedore.c": "C21 C20", "main_store.c": "C01 C02 C03 C23 C22",
    "main_stow.c": "C20 C24", "proto.c": "C21 C20",
    "rsilo.c": "C01 C13 C14 C19 C24 C16", "segjob.c": "C06 C05 C03 C02 C08 C15",
    "silo.c": "C25 C22", "vlu.c": "C12", "vnum.c": "C22",
    "warcinfo.c": "C04 C22", "wsilo.c": "C05 C06 C04 C15 C16 C17 C01",
}
SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"),
        ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "),
        (" - ", " + "), (" |= ", " = "), ("++", "--"), (" += ", " = "),
        (" -= ", " = "), ("return (-1)", "return (0)"),
        ("return (0)", "return (1)"), ("return (1)", "return (0)"),
        ("break;", ";"), ("continue;", ";"), ("strncmp", "strcmp(,")]


def mutations(line):
    s = line.strip()
    if not s or s[0] in "/*#}" or re.search(
            r"assert|CHECK_OBJ|CAST_OBJ|MAGIC|usage|Usage|\bA[NZ]\(|"
            r"fprintf|^case|free\(|Destroy|VSB_delete|VSB_destroy", s):
        return
    code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), line)
    for a, b in SWAP:
        if b.endswith(","):
            continue
        for m in re.finditer(re.escape(a), code):
            if a in ("<=", ">=") and code[m.start() - 1] in "<>":
                continue
            if a == "++" and "for (" in code:
                continue
            yield line[:m.start()] + b + line[m.end():]
    for m in re.finditer(r"\b\d+\b", code):
        if m.group(0).startswith("0") and len(m.group(0)) > 1:
            continue
        n = int(m.group(0))
        for d in (1, -1):
            if n + d >= 0:
                yield line[:m.start()] + str(n + d) + line[m.end():]
    m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)( \{)?)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        e = len(line) - len(m.group(3))
        yield line[:m.end(1)] + "!(" + line[m.end(1):e] + ")" + line[e:]
        yield line[:m.end(1)] + "0 && (" + line[m.end(1):e] + ")" + line[e:]
    if re.match(r"^\s+[A-Za-z_(][^;{}]*;$", code) and not re.match(
            r"^\s*(return|break|continue|goto|const|static|struct|char|int|"
            r"unsigned|size_t|ssize_t|off_t|void|FILE|uint\w+|intmax_t|"
            r"uintmax_t|time_t|long|double)\b", code):
        yield re.match(r"^\s*", line).group(0) + ";"


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    out = a["-o"]
    rng = random.Random(int(a.get("-s", 1)))
    seen = set()
    if os.path.exists(out):
        seen = {l.split(" ", 1)[0] for l in open(out)}
    budget = a.get("-b", "12")
    cands = []
    for f in sorted(FIRST):
        for i, line in enumerate(
                open(os.path.join("/repo", f)).read().split("\n")):
            for mu in mutations(line):
                if mu != line:
                    cands.append((f, i, line, mu))
    # by line first, so that lines with many do not dominate
    by = {}
    for c in cands:
        by.setdefault(c[:2], []).append(c)
    keys = sorted(by)
    rng.shuffle(keys)
    print(len(cands), "changes of", len(keys), "lines", flush=True)
    top = tempfile.mkdtemp(prefix="amut", dir="/dev/shm")
    try:
        for k in keys[:int(a.get("-n", 100))]:
            f, i, line, mu = rng.choice(by[k])
            id = "%s:%d" % (f, i + 1)
            if id in seen:
                continue
            res = one(top, f, i, mu, budget)
            s = "%s %s\n\t- %s\n\t+ %s\n" % (id, res, line.strip(),
                                             mu.strip())
            print(s, end="", flush=True)
            with open(out, "a") as o:
                o.write(s)
    finally:
        shutil.rmtree(top)


def one(top, f, i, mu, budget):
    w = os.path.join(top, "w")
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    p = os.path.join(w, f)
    l = open(p).read().split("\n")
    l[i] = mu
    open(p, "w").write("\n".join(l))
    b = open("/opt/vp/build.sh").read().replace("/repo", w)
    t = open("/opt/vp/test.sh").read().replace(
        "bash /opt/vp/build.sh", "bash %s/b.sh" % top).replace("/repo", w)
    open(top + "/b.sh", "w").write(b)
    open(top + "/t.sh", "w").write(t)

    def run(*args, **kw):
        try:
            return subprocess.run(args, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, timeout=100, **kw)
        except subprocess.TimeoutExpired:
            return None
    r = run("bash", top + "/b.sh")
    if r is None or r.returncode:
        return "DOES-NOT-BUILD"
    r = run("bash", top + "/t.sh", top + "/o.json")
    if r is None or "119 passed" not in r.stdout.decode(errors="replace"):
        return "TESTS-FAIL"
    first = FIRST[f].split()
    odd = []
    for c in first:
        r = run("./check", c, "--no-shrink", cwd=V, env=dict(
            os.environ, AARDWARC_REPO=w, VERIF_BUDGET=budget))
        if r is not None and r.returncode == 1:
            v = [x for x in r.stdout.decode(errors="replace").split("\n")
                 if x.strip()]
            return "CAUGHT %s %s" % (c, v[0][:150])
        if r is None or r.returncode:
            odd.append("%s:%s" % (c, r and r.returncode))
    return "QUIET %s" % " ".join(odd)


if __name__ == "__main__":
    main()
