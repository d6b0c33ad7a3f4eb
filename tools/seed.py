#!/usr/bin/env python3
"""Generates and confirms planted bugs: tools/seed.py gen|confirm [pattern].

tools/seeds/*.py define S(id, property, edits, needs, breaks, body, kind) where edits are (file, old, new) under slinky/,
body is the C++ of the demonstration and kind selects how it is built. `confirm` copies /repo to a scratch directory that
a mount namespace of its own shows as /repo, applies the patch there, builds, runs the tests and the demonstration, and runs
the property's check on the copy.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []

PRE = r'''#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <vector>
#include "slinky/base/thread_pool_impl.h"
#include "slinky/base/chrome_trace.h"
#include "slinky/builder/node_mutator.h"
#include "slinky/builder/optimizations.h"
#include "slinky/builder/pipeline.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/pipeline.h"
#include "slinky/runtime/print.h"
using namespace slinky;
namespace {
[[maybe_unused]] stmt body_of(std::function<index_t(const eval_context&)> f) {
  return call_stmt::make([f](const call_stmt*, const eval_context& c) -> index_t { return f(c); }, {}, {}, {}, {});
}
[[maybe_unused]] void sleep_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
[[maybe_unused]] void watchdog(int s) {
  std::thread([s] { sleep_ms(s * 1000); std::puts("HANG"); std::fflush(stdout); std::_Exit(3); }).detach();
}
#define CHECK(x) do { if (!(x)) { std::printf("FAILED %s line %d\n", #x, __LINE__); std::fflush(stdout); std::_Exit(2); } } while (0)
}
'''
SH = r'''#!/bin/bash
# Run with cwd /repo, after the build. Exit 0: the property held. Nonzero: it did not.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 9
trap 'rm -rf "$out"' EXIT
b=$PWD/_build/slinky
%s || exit 8
cd "$out"
timeout 120 ./demo
'''
BUILD = {
    "link": r'''g++ -std=c++17 -fno-rtti -O1 %s -I"$PWD" "$here/demo.cc" -o "$out/demo" $b/builder/libslinky_builder.a $b/runtime/libslinky_runtime.a $b/base/libslinky_thread_pool_impl.a $b/base/libslinky_thread_pool.a $b/base/libslinky_chrome_trace.a $b/base/libslinky_base.a -lpthread''',
    # built from source, with a sanitizer
    "src": r'''g++ -std=c++17 -fno-rtti -O1 -g %s -I"$PWD" "$here/demo.cc" slinky/base/*.cc slinky/runtime/*.cc slinky/builder/*.cc -o "$out/demo" -lpthread''',
    "base": r'''g++ -std=c++17 -fno-rtti -O1 -g %s -I"$PWD" "$here/demo.cc" slinky/base/thread_pool*.cc -o "$out/demo" -lpthread''',
}


def S(id, prop, edits, needs, breaks, body, kind="link", flags="", pre=PRE):
    L.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, body=body, kind=kind, flags=flags, pre=pre))


def load():
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        exec(open(f).read(), globals())


def gen(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run("git -C /repo archive HEAD slinky | tar x -C " + t, shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm a" % t, shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(t, "slinky", f)
            x = open(p).read()
            if x.count(old) != 1:
                print("EDIT FAILED", s["id"], x.count(old), old[:70])
                return False
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.run("cd %s && git diff" % t, shell=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(s["pre"] + s["body"])
        open(d + "/demo.sh", "w").write(SH % (BUILD[s["kind"]] % s["flags"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(t, ignore_errors=True)


INNER = r'''
set -e
mount --bind "$1" /repo
cd /repo
git apply "$2/patch.diff"
timeout -k 5 900 bash /opt/vp/test.sh /repo/_out.json > /repo/_log.txt 2>&1 || true
rc=0; bash "$2/demo.sh" > /repo/_demo.txt 2>&1 || rc=$?
echo DEMO $rc
'''


def confirm(s):
    d = os.path.join(V, "seeded", s["id"])
    r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    if r.returncode:
        return s["id"], "BAD demo fails on the unchanged tree: %d %s" % (r.returncode, (r.stdout + r.stderr)[-600:])
    t = tempfile.mkdtemp(prefix="seedc-")
    try:
        subprocess.run("cp -a /repo/. %s" % t, shell=True, check=True)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER, "x", t, d], capture_output=True, text=True)
        m = re.search(r"DEMO (\d+)", r.stdout)
        if not m:
            return s["id"], "BAD " + (r.stdout + r.stderr)[-600:]
        try:
            o = json.load(open(t + "/_out.json"))
        except (OSError, ValueError):
            o = {"passed": []}
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = set(base["stable"])
        miss = sorted(names - set(o["passed"]))
        dem = (open(t + "/_demo.txt", errors="replace").read()[-300:] if os.path.exists(t + "/_demo.txt") else "")
        c = subprocess.run([sys.executable, "-m", "sa.check", s["prop"]], cwd=V, capture_output=True, text=True, env=dict(os.environ, SLINKY_REPO=t, SLINKY_EVID=t))
        ok = m.group(1) != "0" and not miss and len(o["passed"]) > 1000
        vl = [l for l in c.stdout.splitlines() if l.startswith("  ")][:2]
        return s["id"], "%s demo=%s (%s) tests passed=%d missing=%s; %s rc=%d %s" % ("ok" if ok else "BAD", m.group(1), dem.strip().replace("\n", " | ")[-160:], len(o["passed"]), miss[:5], s["prop"], c.returncode, " ".join(vl)[:200]) + ("" if ok or miss else open(t + "/_log.txt").read()[-800:] if len(o["passed"]) < 1000 else "")
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    load()
    pat = sys.argv[2] if len(sys.argv) > 2 else "."
    ss = [s for s in L if re.search(pat, s["id"])]
    ok = [s for s in ss if gen(s)]
    if sys.argv[1] == "confirm":
        with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
            for i, t in ex.map(confirm, ok):
                print(i + ": " + t, flush=True)
