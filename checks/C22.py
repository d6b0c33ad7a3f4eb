from sa.lifetime import path, strip
from sa.program import Program, children, show, walk, walk_fn
LEVEL = "other"
EXPLANATION = ("Every implicit and explicit conversion of a 64 bit integer to fewer bits in the library, classified by where the converted value "
               "comes from: values of expressions, buffer bounds, strides, folds, offsets and sizes in bytes must not be converted unless "
               "clamped or checked to fit; counters of dimensions and sizes of lists may be.")
SMALL = ("int", "unsigned int", "short", "unsigned short", "char", "signed char", "unsigned char", "float")
BYTES = ("size_bytes", "elem_count", "alloc_size", "elem_size")


def canon(t):
    return (t or "").replace("const ", "").replace("volatile ", "").rstrip("& ").strip()


class Taint:
    """Which variables of one function hold values (as opposed to positions in lists)."""

    def __init__(self, f, prog):
        self.f, self.prog = f, prog
        self.defs = {}
        self.params = {p["d"]: p for p in f.params}
        for n in walk_fn(f):
            if n["k"] == "lambda":
                for p in n.get("params") or []:
                    self.params[p["d"]] = p
                for i in n.get("insts") or []:
                    for p in i.get("params") or []:
                        self.params[p["d"]] = p
            if n["k"] == "decl":
                for v in n["v"]:
                    if v.get("init") is not None and "d" in v:
                        self.defs.setdefault(v["d"], []).append(v["init"])
            elif n["k"] in ("if", "while") and n.get("var"):
                for v in (n["var"] if isinstance(n["var"], list) else [n["var"]]):
                    if v.get("init") is not None and "d" in v:
                        self.defs.setdefault(v["d"], []).append(v["init"])
            elif n["k"] == "bin" and n["op"] in ("=", "+=", "-=", "*="):
                p = path(n["L"])
                if p and len(p) == 1:
                    self.defs.setdefault(p[0], []).append(n["R"])
        self.memo = {}

    def var(self, d):
        if d in self.memo:
            return self.memo[d]
        self.memo[d] = None
        out = None
        for e in self.defs.get(d, []):
            out = out or self.value(e)
        if out is None and d in self.params and canon(self.params[d]["t"]) == "long" and not self.counts(d):
            out = "the parameter %s" % self.params[d]["n"]
        self.memo[d] = out
        return out

    def counts(self, d):
        """The parameter of a function local to a file for which every caller passes something that only counts."""
        i = [j for j, p in enumerate(self.f.params) if p["d"] == d]
        if not i or not self.f.file.endswith(".cc") or self.f.virt:
            return False
        cs = callers(self.prog).get(self.f.fid, [])
        for g, c in cs:
            if len(c["args"]) <= i[0] or g.fid == self.f.fid or (g.fid, self.f.fid) in BUSY:
                return False
            BUSY.add((g.fid, self.f.fid))
            try:
                if taint(g, self.prog).value(c["args"][i[0]]):
                    return False
            finally:
                BUSY.discard((g.fid, self.f.fid))
        return bool(cs)

    def value(self, n):
        """A description of the value an expression takes its result from, or None when it only counts things."""
        n = strip(n)
        if n is None:
            return None
        k, t = n["k"], canon(n.get("t"))
        if isinstance(n.get("cv"), int) and k in ("lit", "ref"):
            return None
        if k == "ref":
            return self.var(n.get("d"))
        if k == "mem":
            if t == "long" and n.get("dk") == "field":
                return "the field " + n["n"]
            if n["n"] in BYTES:
                return n["n"]
            return None
        if k == "bin":
            if n["op"] in ("+", "-", "*", "/", "<<", "|", "^"):
                return self.value(n["L"]) or self.value(n["R"])
            if n["op"] in ("=", "+=", "-="):
                return self.value(n["R"])
            if n["op"] in ("%", "&"):
                return None if self.value(n["R"]) is None else self.value(n["L"])
            return None
        if k == "cond":
            return self.value(n["a"]) or self.value(n["b"])
        if k in ("cast", "defarg"):
            return self.value(n["e"]) if canon(n.get("t")) in ("long", "unsigned long") else None
        if k == "un":
            return self.value(n["e"]) if n["op"] in ("-", "+", "~", "*", "++", "--") else None
        if k in ("ctor", "ilist"):
            xs = n.get("args") or n.get("c") or []
            for x in xs:
                if self.value(x):
                    return self.value(x)
            return None
        if k == "call":
            fn = n.get("fn", "")
            name = fn.split("::")[-1]
            args = n.get("args", [])
            if fn.startswith("slinky::") or "lam" in n:
                if t == "long":
                    return "the result of " + (name if not n.get("op") else show(n)[:40])
                if name in BYTES:
                    return "the result of " + name
                if "optional<long>" in t:
                    return "the result of " + name
                return None
            if name in ("min", "max", "clamp"):
                # clamped to what fits: a constant among the arguments
                lim = [a for a in args if isinstance(self.const(a), int)]
                if any(abs(self.const(a)) < 2 ** 31 for a in lim) and name == "min":
                    return None
            if name in ("min", "max", "abs", "clamp", "value", "value_or", "operator*", "exchange", "get", "load", "gcd", "lcm"):
                for x in ([n["obj"]] if n.get("obj") else []) + args:
                    v = self.value(x)
                    if v:
                        return v
                if name in ("value", "value_or", "operator*", "load") and t == "long":
                    return show(n)[:40]
                return None
            return None
        return None

    def const(self, n):
        n = strip(n)
        while n is not None and n["k"] in ("cast", "defarg"):
            if isinstance(n.get("cv"), int):
                return n["cv"]
            n = strip(n["e"])
        if n is None:
            return None
        if isinstance(n.get("cv"), int):
            return n["cv"]
        if n["k"] == "un" and n["op"] == "-":
            c = self.const(n["e"])
            return -c if isinstance(c, int) else None
        if n["k"] == "call" and "numeric_limits<" in n.get("fn", "") + str(n.get("rec", "")):
            s = n.get("fn", "") + str(n.get("rec", ""))
            m = n["fn"].split("::")[-1]
            if "<int>" in s:
                return 2 ** 31 - 1 if m == "max" else -2 ** 31
        if n["k"] == "ref" and len(self.defs.get(n.get("d"), [])) == 1 and n.get("dk") == "var":
            return self.const(self.defs[n["d"]][0])
        return None

    def checked(self, n):
        """The variable is compared with limits that fit on both sides somewhere before it is converted."""
        p = path(n)
        if p is None:
            return False
        lo = hi = False
        here = [(x, p) for x in walk_fn(self.f) if (x.get("l") or 0) <= (n.get("l") or 0)]
        for x, _ in list(here):
            # a condition may be in a function of its own
            if x["k"] == "call" and x.get("fid") and x.get("t") == "bool":
                g = self.prog.callee(x["fid"])
                if g is not None and g.body is not None and g.file.endswith(".cc"):
                    for a, q in zip(x["args"][-len(g.params):] if g.params else [], g.params):
                        if path(a) == p:
                            here += [(y, (q["d"],)) for y in walk_fn(g)]
        for x, p in here:
            if x["k"] == "bin" and x["op"] in ("<", ">", "<=", ">="):
                for a, b, op in ((x["L"], x["R"], x["op"]), (x["R"], x["L"], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[x["op"]])):
                    a = strip(a)
                    ab = a["k"] == "call" and a.get("fn", "").split("::")[-1] == "abs" and a["args"] and path(a["args"][0]) == p
                    if path(a) == p or ab:
                        c = self.const(b)
                        if isinstance(c, int) and -2 ** 31 <= c <= 2 ** 31:
                            hi |= op in (">", ">=") or ab
                            lo |= op in ("<", "<=") or ab
                            hi |= op in ("<", "<=")
                            lo |= op in (">", ">=")
        return lo and hi


BUSY = set()
CACHE = {}


def callers(prog):
    if "callers" not in CACHE:
        out = CACHE["callers"] = {}
        for g in prog.functions:
            if not g.dep:
                for x in walk_fn(g):
                    if x["k"] == "call" and x.get("fid"):
                        out.setdefault(x["fid"], []).append((g, x))
    return CACHE["callers"]


def taint(f, prog):
    if id(f) not in CACHE:
        CACHE[id(f)] = (Taint(f, prog), f)
    return CACHE[id(f)][0]


def targets(f):
    """Nodes assigned to something that is a position by name: id -> name."""
    out = {}
    for n in walk_fn(f):
        if n["k"] == "bin" and n["op"] == "=" or n["k"] == "call" and n.get("op") == "=" and len(n["args"]) == 2:
            L, R = (n["L"], n["R"]) if n["k"] == "bin" else n["args"]
            L = strip(L)
            if L["k"] in ("mem", "ref"):
                for x in walk(R):
                    out[id(x)] = L["n"]
        elif n["k"] == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    for x in walk(v["init"]):
                        out[id(x)] = v["n"]
    return out


def check(res, tier):
    res.rule("no-narrowing", "a value of an expression, a bound, stride, fold factor, offset or size in bytes is not converted to fewer than 64 bits "
             "unless it was clamped or checked to fit")
    prog = Program()
    n = nv = 0
    done = set()
    for f in prog.functions:
        if not f.file.startswith("slinky/"):
            continue
        key = f.fid
        if key in done:
            continue
        done.add(key)
        tn = None
        for x in walk_fn(f):
            to = None
            if x.get("nar") and canon(x.get("t")) in ("long", "unsigned long"):
                to, e = x["nar"], x
            elif x["k"] == "cast" and canon(x.get("to")) in SMALL and canon(x.get("from")) in ("long", "unsigned long"):
                to, e = canon(x["to"]), x["e"]
            elif x["k"] == "bin" and x["op"] in ("+=", "-=", "*=", "/=", "|=", "^=") and canon(x["L"].get("t")) in SMALL \
                    and canon(x["R"].get("t")) in ("long", "unsigned long"):
                to, e = canon(x["L"]["t"]), x["R"]
            if to is None:
                continue
            n += 1
            if tn is None:
                tn, tg = Taint(f, prog), targets(f)
            c = tn.const(e)
            if isinstance(c, int) and -2 ** 31 <= c < 2 ** 31:
                continue
            v = tn.value(e)
            if v is None:
                res.ok("%s:%s: %s is a count" % (f.file, f.q.split("::")[-1][:40], show(e)[:60]))
                continue
            if tg.get(id(x)) in ("rank", "dim"):
                res.ok("%s:%s: %s is a rank" % (f.file, f.q.split("::")[-1][:40], show(e)[:60]))
                continue
            if tn.checked(strip(e)):
                nv += 1
                res.ok("%s:%s: %s is checked to fit" % (f.file, f.q.split("::")[-1][:40], show(e)[:60]))
                continue
            nv += 1
            res.bad("%s: %s narrowed" % (f.q, show(strip(e))[:60]), f.file, x.get("l") or f.line,
                    "%s: %s (from %s) is converted to %s, which does not hold every value" % (f.q, show(strip(e))[:80], v, to), ["%s:%s" % (f.file, x.get("l"))])
    res.count("conversions to fewer bits", n)
    res.count("functions", len(done))
    res.need(n, "conversions", 20)
