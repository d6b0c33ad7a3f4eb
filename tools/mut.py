#!/usr/bin/env python3
"""Development aid: applies textual mutations to a scratch copy of /repo and runs checks on them.

tools/muts/*.py define M(name, file, old, new, expect) where expect is a list of check ids that must report, or [] for an
edit that keeps behaviour. Usage: tools/mut.py [-c] [pattern] [checks...]   (-c: also try to compile the file)
"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []


def M(name, file, *edits, expect=()):
    L.append((name, file, edits, list(expect)))


for f in sorted(glob.glob(os.path.join(V, "tools", "muts", "*.py"))):
    exec(open(f).read())


def one(m, checks, comp):
    name, file, edits, expect = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/slinky", d + "/slinky")
        for e in edits:
            fl, old, new = e if len(e) == 3 else (file,) + tuple(e)
            p = os.path.join(d, "slinky", fl)
            s = open(p).read()
            if s.count(old) != 1:
                return name, "EDIT FAILED (%d matches): %s" % (s.count(old), old[:60]), False
            open(p, "w").write(s.replace(old, new))
        out = []
        if comp:
            u = [file] if file.endswith(".cc") else []
            if not u:
                u = [os.path.relpath(x, d + "/slinky") for x in glob.glob(d + "/slinky/*/*.cc") if "apps" not in x]
            for x in u:
                r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-fno-rtti", "-I" + d, d + "/slinky/" + x], capture_output=True, text=True)
                if r.returncode:
                    return name, "DOES NOT COMPILE " + r.stderr[:300], False
        got, text = [], ""
        for c in checks or expect or ALL:
            r = subprocess.run([sys.executable, "-m", "sa.check", c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, SLINKY_REPO=d, SLINKY_EVID=d))
            if r.returncode == 1:
                got.append(c)
                text += "".join("    " + l[:230] + "\n" for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("     "))
            elif r.returncode == 2:
                got.append(c + "?")
                text += "    " + r.stdout[-300:] + r.stderr[-300:] + "\n"
        want = [c for c in expect if not checks or c in checks]
        ok = (set(got) >= set(want)) if want else not got
        return name, ("ok  " if ok else "BAD ") + "expect %s got %s\n%s" % (want, got, text), ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/checks/C*.py"))
a = sys.argv[1:]
comp = "-c" in a
a = [x for x in a if x != "-c"]
pat = a[0] if a else "."
checks = a[1:]
ms = [m for m in L if re.search(pat, m[0])]
with ThreadPoolExecutor(4) as ex:
    bad = 0
    for name, t, ok in ex.map(lambda m: one(m, checks, comp), ms):
        bad += not ok
        print(name + ": " + t.rstrip())
print("%d run, %d unexpected" % (len(ms), bad))
