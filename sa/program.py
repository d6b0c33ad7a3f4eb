"""Loads the type-checked program of /repo as dumped by extract/extract.cc.

The extractor is run on every library translation unit of the current working tree each time a check starts; nothing is
cached between runs, so a check always sees the tree it is run on.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLINKY_REPO", "/repo")
EXTRACT = os.path.join(VERIF, "extract", "bin", "extract")
FLAGS = ["-std=c++17", "-fno-rtti", "-fno-exceptions", "-DNDEBUG", "-w",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


class AnalysisBroken(Exception):
    """The analysis could not be carried out (missing anchor, zero instances, unparseable source): never a verdict."""


class AnchorMissing(AnalysisBroken):
    """Code a rule is about was not found: what the rule was to decide stays undecided."""


def ensure_tool():
    if not os.path.exists(EXTRACT):
        subprocess.run([os.path.join(VERIF, "extract", "build.sh")], check=True)


def library_units():
    out = []
    for d in ("base", "runtime", "builder"):
        out += sorted(glob.glob(os.path.join(REPO, "slinky", d, "*.cc")))
    return [os.path.relpath(f, REPO) for f in out]


class Func:
    def __init__(self, prog, tu, raw):
        self.prog, self.tu, self.raw = prog, tu, raw
        self.fid, self.q, self.n = raw["fid"], raw["q"], raw["n"]
        self.file, self.line = raw["file"], raw["l"]
        self.kind = raw["kind"]
        self.dep = bool(raw.get("dep"))
        self.inst = bool(raw.get("inst"))
        self.virt = bool(raw.get("virt"))
        self.over = raw.get("over", [])
        self.acc = raw.get("acc")
        self.recq = raw.get("recq")
        self._done = False

    def _fix(self):
        if not self._done:
            self.tu.resolve(self.raw)
            self._done = True

    @property
    def body(self):
        self._fix()
        return self.raw["body"]

    @property
    def params(self):
        self._fix()
        return self.raw["params"]

    @property
    def rt(self):
        self._fix()
        return self.raw["rt"]

    @property
    def rec(self):
        self._fix()
        return self.raw.get("rec")

    @property
    def inits(self):
        self._fix()
        return self.raw.get("inits", [])

    @property
    def const(self):
        return bool(self.raw.get("cm"))

    @property
    def static(self):
        return bool(self.raw.get("sm"))

    def where(self, node=None):
        return "%s:%d" % (self.file, (node or {}).get("l") or self.line)

    def __repr__(self):
        return "<%s %s:%d>" % (self.fid, self.file, self.line)


class TU:
    def __init__(self, prog, data, idx):
        self.prog, self.idx = prog, idx
        self.name = data["tu"]
        self.types = data["types"]
        self.data = data

    def resolve(self, n):
        """Replaces type indices by strings and makes declaration ids unique across units."""
        types, base = self.types, self.idx * 10000000
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("t", "rt", "at", "to", "from", "rec", "base"):
                        if isinstance(v, int):
                            x[k] = types[v]
                    elif k == "pt":
                        x[k] = [types[i] if isinstance(i, int) else i for i in v]
                    elif k == "bases":
                        x[k] = [types[i] if isinstance(i, int) else i for i in v]
                    elif k in ("d", "lam"):
                        if isinstance(v, int):
                            x[k] = base + v
                    elif isinstance(v, (dict, list)):
                        stack.append(v)
                if "k" in x:
                    self.prog._nid += 1
                    x["id"] = self.prog._nid
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        stack.append(v)


class Program:
    def __init__(self, units=None, rules=False):
        ensure_tool()
        self._nid = 0
        allu = library_units()
        if units is not None:
            want = []
            for u in units:
                m = [x for x in allu if x.endswith(u)]
                if not m:
                    raise AnalysisBroken("translation unit %s not found in the tree" % u)
                want += m
            allu = want
        if not allu:
            raise AnalysisBroken("no library translation units found")
        tmp = tempfile.mkdtemp(prefix="slinky-sa-")
        try:
            def run(i_u):
                i, u = i_u
                out = os.path.join(tmp, "%d.json" % i)
                cmd = [EXTRACT, REPO.rstrip("/") + "/", os.path.join(REPO, u), out]
                if rules:
                    cmd.append("--rules")
                cmd += ["--"] + FLAGS + ["-I" + REPO]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0 or os.path.getsize(out) == 0:
                    raise AnalysisBroken("cannot parse %s:\n%s" % (u, r.stdout[-2000:]))
                with open(out) as f:
                    return TU(self, json.load(f), i + 1)
            with ThreadPoolExecutor(8) as ex:
                self.tus = list(ex.map(run, enumerate(allu)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.functions = []
        self.by_fid = {}
        self.by_q = {}
        seen = set()
        self.records = {}
        self.enums = {}
        self.gvars = []
        for tu in self.tus:
            for raw in tu.data["functions"]:
                internal = raw.get("internal")
                key = (raw["fid"], raw["file"], raw["l"], tu.name if (internal and raw["file"].endswith(".h")) else "")
                if key in seen:
                    continue
                seen.add(key)
                f = Func(self, tu, raw)
                self.functions.append(f)
                self.by_fid.setdefault(f.fid, []).append(f)
                self.by_q.setdefault(f.q, []).append(f)
            for r in tu.data["records"]:
                rk = tu.types[r["t"]] if isinstance(r["t"], int) else r["t"]
                if rk not in self.records or r["file"].endswith(".cc"):
                    if rk in self.records and self.records[rk]["file"] == r["file"]:
                        continue
                    tu.resolve(r)
                    # Anonymous-namespace classes of different units may share a name.
                    if rk in self.records:
                        rk = rk + "@" + r["file"]
                    self.records[rk] = r
            for e in tu.data["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in tu.data["gvars"]:
                tu.resolve(g)
                self.gvars.append(g)
        self._overriders = None

    # -- lookup
    def fn(self, q, nparams=None, pred=None, dep=False):
        fs = [f for f in self.by_q.get(q, []) if (dep or not f.dep)
              and (nparams is None or len(f.raw["params"]) == nparams) and (pred is None or pred(f))]
        return fs

    def one(self, q, nparams=None, pred=None, dep=False):
        fs = self.fn(q, nparams, pred, dep)
        if not fs:
            raise AnchorMissing("anchor %s not found" % q)
        return fs[0]

    def callee(self, fid, caller_tu=None):
        """The body for a resolved callee, preferring the caller's own unit (internal linkage)."""
        fs = self.by_fid.get(fid)
        if not fs:
            return None
        if caller_tu is not None:
            for f in fs:
                if f.tu is caller_tu:
                    return f
        return fs[0]

    def overriders(self, fid):
        if self._overriders is None:
            m = {}
            for f in self.functions:
                for b in f.over:
                    m.setdefault(b, []).append(f)
            self._overriders = m
        out, work, seen = [], [fid], set()
        while work:
            x = work.pop()
            for f in self._overriders.get(x, []):
                if id(f) not in seen:
                    seen.add(id(f))
                    out.append(f)
                    work.append(f.fid)
        return out

    def methods(self, recq):
        return [f for f in self.functions if f.recq == recq]

    def rec(self, q):
        r = self.records.get(q)
        if r is None:
            raise AnchorMissing("class %s not found" % q)
        return r

    def bases_closure(self, q):
        out, work = set(), [q]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            r = self.records.get(x)
            if r:
                work += r["bases"]
        return out

    def all_fields(self, q):
        """Own and inherited fields."""
        fs = []
        r = self.records.get(q)
        if not r:
            return fs
        for b in r["bases"]:
            fs += self.all_fields(b)
        return fs + [(q, f) for f in r["fields"]]


SKIP = ("t", "id", "l", "le")


def children(n):
    """Direct child nodes (dictionaries with a kind), in source order of keys."""
    out = []
    for k, v in n.items():
        if isinstance(v, dict):
            out += [v] if "k" in v else children(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    out += [x] if "k" in x else children(x)
    return out


def walk(n, into_lambdas=True):
    """Pre-order walk over all nodes below (and including) n."""
    if n is None:
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if x["k"] == "lambda":
            if not into_lambdas:
                continue
            ch = []
            for c in x["caps"]:
                if c.get("init"):
                    ch.append(c["init"])
            if x.get("insts"):
                ch += [i["body"] for i in x["insts"] if i["body"]]
            elif x["body"]:
                ch.append(x["body"])
        else:
            ch = children(x)
        stack.extend(reversed(ch))


def walk_fn(f, into_lambdas=True):
    for i in f.inits:
        if i.get("e"):
            yield from walk(i["e"], into_lambdas)
    if f.body:
        yield from walk(f.body, into_lambdas)


def show(n, depth=0):
    """A compact rendering of an expression for reports."""
    if n is None:
        return ""
    k = n["k"]
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)
    if k == "ref":
        return n["n"]
    if k == "mem":
        b = s(n["b"])
        return n["n"] if b == "this" else b + ("->" if n.get("arrow") else ".") + n["n"]
    if k == "this":
        return "this"
    if k == "call":
        a = [s(x) for x in n["args"]]
        if n.get("op"):
            op = n["op"]
            if op == "()":
                return "%s(%s)" % (a[0], ", ".join(a[1:]))
            if op == "[]":
                return "%s[%s]" % (a[0], ", ".join(a[1:]))
            if len(a) == 1 or (len(a) == 2 and op in ("++", "--")):
                return op + a[0]
            if op == "->":
                return a[0]
            return "%s %s %s" % (a[0], op, a[1])
        name = n.get("fn", "").split("::")[-1] or s(n.get("callee"))
        if n.get("obj"):
            o = s(n["obj"])
            if o != "this":
                name = o + "." + name
        elif n.get("fn"):
            name = "::".join(n["fn"].split("::")[-2:]) if n.get("sm") else name
        return "%s(%s)" % (name, ", ".join(a))
    if k == "ctor":
        return "%s{%s}" % (n.get("fn", "").split("::")[-1], ", ".join(s(x) for x in n["args"]))
    if k == "un":
        return s(n["e"]) + n["op"] if n.get("post") else n["op"] + s(n["e"])
    if k == "bin":
        return "%s %s %s" % (s(n["L"]), n["op"], s(n["R"]))
    if k == "cond":
        return "%s ? %s : %s" % (s(n["c"]), s(n["a"]), s(n["b"]))
    if k == "cast":
        return "(%s)%s" % (n["to"], s(n["e"]))
    if k == "lit":
        return repr(n["s"]) if "s" in n else str(n.get("cv", "?"))
    if k == "null":
        return "nullptr"
    if k == "lambda":
        return "[lambda]"
    if k == "idx":
        return "%s[%s]" % (s(n["b"]), s(n["i"]))
    if k == "new":
        return "new " + n["at"]
    if k == "ilist":
        return "{%s}" % ", ".join(s(x) for x in n["c"])
    if k == "defarg":
        return s(n["e"])
    if k == "return":
        return "return " + s(n["e"])
    return "<%s>" % k
