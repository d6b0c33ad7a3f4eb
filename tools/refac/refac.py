#!/usr/bin/env python3
"""Development aid: rewrites the whole library mechanically, keeping its behaviour, and runs every check on the result.

refac.py MODE [check...]; each check has to stay quiet (exit 0). With -k the rewritten tree is kept in /tmp/refac-MODE.
-d N/M applies only every M-th rewriting, starting at N."""
import glob, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FL = ["-std=c++17", "-fno-rtti", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
BIN = "/tmp/refac-bin"


def build():
    if os.path.exists(BIN) and os.path.getmtime(BIN) > os.path.getmtime(V + "/tools/refac/refac.cc"):
        return
    ll = "/usr/lib/llvm-18"
    so = glob.glob(ll + "/lib/libclang-cpp.so*")[:1] + (glob.glob(ll + "/lib/libLLVM-18.so*") or glob.glob(ll + "/lib/libLLVM.so*"))[:1]
    subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + ll + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                    "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", V + "/tools/refac/refac.cc", "-o", BIN] + so +
                   ["-Wl,-rpath," + ll + "/lib"], check=True)


def units(root):
    return sorted(f for d in ("base", "runtime", "builder") for f in glob.glob(root + "/slinky/%s/*.cc" % d))


def groups(mode):
    def run(u):
        return subprocess.run([BIN, mode, "/repo/slinky/", u, *FL, "-I/repo"], capture_output=True, text=True).stdout
    out = {}
    with ThreadPoolExecutor(6) as ex:
        for t in ex.map(run, units("/repo")):
            for l in t.splitlines():
                if not l.startswith("G\t"):
                    continue
                p = l.split("\t")
                ed = []
                for i in range(3, len(p), 3):
                    s = p[i + 2].replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\0", "\\")
                    ed.append((int(p[i]), int(p[i + 1]), s))
                if mode in ("ifneg", "retvar", "condvar", "rangefor", "idxfor", "iterfor", "hcond", "hstmt"):
                    key = (p[1], tuple(sorted((a, b) for a, b, _ in ed)))
                else:
                    key = (p[1], tuple(sorted(ed)))
                out[key] = (p[1], int(p[2]), ed)
    return sorted(out.values())


def compat(mode, gs):
    """Drops groups whose edits overlap an edit kept before."""
    used, kept = {}, []
    gs = sorted(gs, key=lambda g: sum(l for _, l, _ in g[2]))
    for g in gs:
        u = used.setdefault(g[0], [])
        if any(a < o2 + l2 and o2 < a + l for a, l, _ in g[2] for o2, l2 in u):
            continue
        u += [(a, l) for a, l, _ in g[2]]
        kept.append(g)
    return sorted(kept)


def apply(gs, dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree("/repo/slinky", dst + "/slinky")
    lines = {}
    by = {}
    for i, g in enumerate(gs):
        by.setdefault(g[0], []).append((i, g))
    for f, l in by.items():
        src = open(f, "rb").read().decode()
        b = src.encode()
        ed = sorted(((o, n, t, i) for i, g in l for o, n, t in g[2]), key=lambda e: (e[0], e[1]))
        out, pos, where = [], 0, []
        size = 0
        for o, n, t, i in ed:
            assert o >= pos, (f, o, pos)
            out.append(b[pos:o]); size += o - pos
            tb = t.encode()
            where.append((size, size + len(tb), i))
            out.append(tb); size += len(tb)
            pos = o + n
        out.append(b[pos:])
        nb = b"".join(out)
        p = f.replace("/repo", dst)
        open(p, "wb").write(nb)
        ln = {}
        for s, e, i in where:
            for k in range(nb[:s].count(b"\n") + 1, nb[:e].count(b"\n") + 2):
                ln.setdefault(k, set()).add(i)
        lines[p] = ln
    return lines


def compile_(dst, lines):
    bad = set(); other = []
    def run(u):
        return subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-fno-rtti", "-w", "-fmax-errors=0", "-I" + dst, u], capture_output=True, text=True).stderr
    us = units(dst) + glob.glob(dst + "/slinky/builder/test/*.cc")[:0]
    with ThreadPoolExecutor(6) as ex:
        for t in ex.map(run, us):
            for l in t.splitlines():
                m = re.match(r"(\S+?):(\d+):\d+: (error|note|required)", l) or re.match(r"(\S+?):(\d+):\d+:\s+(required)", l)
                if m and m.group(3) in ("error", "required"):
                    s = lines.get(m.group(1), {}).get(int(m.group(2)))
                    if s: bad |= s
                    else: other.append(l)
    return bad, other


def main():
    a = sys.argv[1:]
    part = None
    if a[0] == "-d":
        part = tuple(int(x) for x in a[1].split("/")); a = a[2:]
    mode, checks = a[0], a[1:]
    build()
    dst = "/tmp/refac-" + mode
    gs = compat(mode, groups(mode))
    if part:
        gs = [g for i, g in enumerate(gs) if i % part[1] == part[0]]
    for rnd in range(12):
        lines = apply(gs, dst)
        bad, other = compile_(dst, lines)
        if not bad and not other: break
        if not bad:
            print("cannot fix:", *other[:8], sep="\n  ")
            # drop everything within 6 lines of the error
            for l in other:
                m = re.match(r"(\S+?):(\d+):", l)
                ln = lines.get(m.group(1), {})
                for k in range(int(m.group(2)) - 8, int(m.group(2)) + 8): bad |= ln.get(k, set())
            if not bad: return
        gs = [g for i, g in enumerate(gs) if i not in bad]
    print(mode, len(gs), "rewritings", "compiles" if not other else "DOES NOT COMPILE", "(round %d)" % rnd)
    sys.stdout.flush()
    if checks == ["none"]: return
    checks = checks or sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/checks/C*.py"))
    def chk(c):
        try:
            r = subprocess.run([sys.executable, "-m", "sa.check", c], cwd=V, capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, SLINKY_REPO=dst, SLINKY_EVID="/tmp/ev2"))
            return c, r.returncode, r.stdout + r.stderr[-600:]
        except subprocess.TimeoutExpired:
            return c, "timeout", ""
    with ThreadPoolExecutor(4) as ex:
        for c, rc, o in ex.map(chk, checks):
            print(c, "quiet" if rc == 0 else "RC=%s" % rc)
            if rc != 0:
                for l in [x for x in o.splitlines() if x.strip()][:14]: print("   ", l[:260])
            sys.stdout.flush()


main()
