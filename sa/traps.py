"""Integer divisions outside the arithmetic kernels: the divisor must be known to be non-zero where it is used.

A divisor is non-zero if it is a non-zero constant, or a condition that dominates the division says so (an enclosing or
left-hand condition, or an earlier `if` in an enclosing block that does not fall through), or it is the absolute value or
greatest common divisor of something non-zero, or it is a parameter or a field all of whose sources are non-zero.
"""
from .program import walk_fn, walk, show, children, AnalysisBroken

KERNELS = ("euclidean_div", "euclidean_mod", "euclidean_div_positive_divisor", "euclidean_mod_positive_modulus")


def strip(n):
    while n is not None and n["k"] in ("paren", "cast", "defarg") and n.get("e") is not None:
        n = n["e"]
    return n


def falls(n):
    """Whether control can pass the end of the statement."""
    if n is None:
        return True
    k = n["k"]
    if k in ("return", "break", "continue", "goto", "throw"):
        return False
    if k == "block":
        return all(falls(c) for c in n["c"])
    if k == "if":
        return falls(n["a"]) or falls(n.get("b"))
    return True


def after(c):
    """Conditions known to hold once control has passed the statement."""
    if c["k"] == "block" and len(c["c"]) == 1:
        return after(c["c"][0])
    if c["k"] != "if":
        return []
    if not falls(c["a"]):
        return [(c["c"], False)] + (after(c["b"]) if c.get("b") is not None else [])
    if c.get("b") is not None and not falls(c["b"]):
        return [(c["c"], True)] + after(c["a"])
    return []


class Ctx:
    """Finds a node in a function with the conditions that dominate it."""

    def __init__(self, f):
        self.f = f
        self.out = {}
        if f.body:
            self.go(f.body, [])
        for i in f.inits:
            if i.get("e"):
                self.go(i["e"], [])

    def go(self, n, cs):
        if n is None:
            return
        self.out[n["id"]] = cs
        k = n["k"]
        if k == "block":
            cur = list(cs)
            for c in n["c"]:
                self.go(c, cur)
                cur = cur + after(c)
            return
        if k == "if":
            if n.get("init"):
                self.go(n["init"], cs)
            self.go(n["c"], cs)
            self.go(n["a"], cs + [(n["c"], True)])
            self.go(n.get("b"), cs + [(n["c"], False)])
            return
        if k == "bin" and n["op"] in ("&&", "||"):
            self.go(n["L"], cs)
            self.go(n["R"], cs + [(n["L"], n["op"] == "&&")])
            return
        if k == "cond":
            self.go(n["c"], cs)
            self.go(n["a"], cs + [(n["c"], True)])
            self.go(n["b"], cs + [(n["c"], False)])
            return
        if k in ("for", "while"):
            for x in children(n):
                self.go(x, cs + ([(n["c"], True)] if n.get("c") is not None and x is n.get("body") else []))
            return
        if k == "lambda":
            bodies = [i["body"] for i in n.get("insts") or [] if i["body"]] or ([n["body"]] if n.get("body") else [])
            for b in bodies:
                self.go(b, cs)
            for c in n["caps"]:
                if c.get("init"):
                    self.go(c["init"], cs)
            return
        for x in children(n):
            self.go(x, cs)


def text(n):
    return show(strip(n))


def says_nonzero(c, truth, t, unsigned, named=lambda c: None, depth=0):
    """Whether condition c being `truth` implies the expression rendered t is not zero."""
    c = strip(c)
    k = c["k"]
    if depth < 4:
        d = named(c)
        if d is not None:
            e, sub = d
            ts = [p for p, a in sub.items() if a == t] if sub else []
            if any(says_nonzero(e, truth, x, unsigned, named if not sub else (lambda c: None), depth + 1) for x in ([t] if not sub else ts)):
                return True
    if k == "un" and c["op"] == "!":
        return says_nonzero(c["e"], not truth, t, unsigned, named, depth)
    if k == "bin" and c["op"] in ("&&", "||"):
        both = (c["op"] == "&&") == truth
        a, b = (says_nonzero(x, truth, t, unsigned, named, depth) for x in (c["L"], c["R"]))
        return (a or b) if both else (a and b)
    if k == "call" and (c.get("fn") or "").endswith("__builtin_expect"):
        return says_nonzero(c["args"][0], truth, t, unsigned, named, depth)
    if k == "bin" and c["op"] in ("==", "!=", "<", "<=", ">", ">="):
        op = c["op"]
        l, r = c["L"], c["R"]
        if text(r) == t and text(l) != t:
            l, r = r, l
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if text(l) != t:
            return False
        if not truth:
            op = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        r = strip(r)
        v = r.get("cv")
        if v is not None:
            v = int(v)
            return {"==": v != 0, "!=": v == 0, "<": v <= 0, "<=": v < 0, ">": v >= 0, ">=": v > 0}[op]
        return unsigned and op == ">"
    if truth and text(c) == t:
        return True
    return False


class Traps:
    def __init__(self, prog):
        self.prog = prog
        self.ctx = {}
        self.calls = None
        self.busy = set()
        self.assumed = set()

    def conds(self, f, n):
        if id(f) not in self.ctx:
            self.ctx[id(f)] = Ctx(f)
        return self.ctx[id(f)].out.get(n["id"], [])

    def named(self, f, c):
        """What a condition that is a local variable, or the result of a lambda or function, stands for: an expression
        and the rendering of its parameters."""
        if c["k"] == "ref" and c.get("dk") == "var":
            d = self.assignments(f, c["d"])
            return (d[0], {}) if d and len(d) == 1 else None
        if c["k"] == "lambda" or c["k"] == "call" and not c.get("args") is None:
            b, ps = None, []
            lam = [x for x in walk(c) if x["k"] == "lambda"][:1] if c["k"] == "call" and not (c.get("fn") or "").startswith("slinky::abs") else []
            if lam:
                bs = [i["body"] for i in lam[0].get("insts") or [] if i["body"]] or ([lam[0]["body"]] if lam[0].get("body") else [])
                b = bs[0] if bs else None
            else:
                g = self.prog.callee(c.get("fid")) if c.get("fid") else None
                if g is not None and g.body is not None:
                    b, ps = g.body, [p["n"] for p in g.params]
            while b is not None and b["k"] == "block" and len(b["c"]) == 1:
                b = b["c"][0]
            if b is not None and b["k"] == "return" and b.get("e") is not None:
                return b["e"], dict(zip(ps, [text(a) for a in c["args"]][-len(ps):] if ps else []))
        return None

    def callers(self, f):
        if self.calls is None:
            self.calls = {}
            for g in self.prog.functions:
                if g.dep:
                    continue
                for x in walk_fn(g):
                    if x["k"] in ("call", "ctor", "new") and (x.get("fid") or (x.get("init") or {}).get("fid")):
                        c = x if x.get("fid") else x["init"]
                        self.calls.setdefault(c["fid"], []).append((g, c))
        return self.calls.get(f.fid, [])

    def nonzero(self, f, at, e, depth=0):
        """True / False (no evidence)."""
        e = strip(e)
        if e.get("cv") is not None and e["k"] not in ("ref", "mem"):
            return int(e["cv"]) != 0
        if e["k"] == "sizeof":
            return True
        t = show(e)
        uns = "unsigned" in (e.get("t") or "") or "size_t" in (e.get("t") or "")
        if any(says_nonzero(c, tr, t, uns, lambda c: self.named(f, c)) for c, tr in self.conds(f, at)):
            return True
        if depth > 14:
            return False
        k = e["k"]
        if k == "cond":
            return self.nonzero(f, e["a"], e["a"], depth + 1) and self.nonzero(f, e["b"], e["b"], depth + 1)
        if k == "call":
            last = (e.get("fn") or "").split("::")[-1].split("<")[0]
            if last == "abs":
                return self.nonzero(f, at, e["args"][0], depth + 1)
            if last in ("gcd", "lcm"):
                c = [self.nonzero(f, at, a, depth + 1) for a in e["args"]]
                return any(c) if last == "gcd" else all(c)
            if last == "min":
                return all(self.nonzero(f, at, a, depth + 1) for a in e["args"])
            if last == "max":
                return any(self.positive(a) for a in e["args"])
        if k == "ref":
            if e.get("cv") is not None:
                return int(e["cv"]) != 0
            if e.get("dk") == "parm":
                return self.from_param(f, e["d"], depth)
            d = self.assignments(f, e["d"])
            if d:
                return all(self.nonzero(f, x, x, depth + 1) for x in d)
        if k == "mem" and strip(e["b"])["k"] == "this":
            src = self.field_sources(e)
            return bool(src) and all(self.nonzero(g, x, x, depth + 1) for g, x in src)
        return False

    def positive(self, a):
        a = strip(a)
        return a.get("cv") is not None and int(a["cv"]) > 0

    def assignments(self, f, d):
        """All right-hand sides assigned to a local variable, or None if it may be changed otherwise."""
        out = []
        for x in walk_fn(f):
            if x["k"] == "decl":
                for v in x["v"]:
                    if v["d"] == d:
                        if v.get("init") is None:
                            return None
                        out.append(v["init"])
            elif x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") \
                    and strip(x["L"])["k"] == "ref" and strip(x["L"]).get("d") == d:
                if x["op"] != "=":
                    return None
                out.append(x["R"])
            elif x["k"] == "un" and x["op"] in ("++", "--", "&") and strip(x["e"])["k"] == "ref" and strip(x["e"]).get("d") == d:
                return None
        return out

    def from_param(self, f, d, depth):
        i = [j for j, p in enumerate(f.params) if p["d"] == d]
        if not i:
            return False
        if (f.fid, d) in self.busy:
            return True      # proved together with the assignment being looked at
        re = self.assignments(f, d)
        if re is None:
            return False
        self.busy.add((f.fid, d))
        try:
            if f.virt:
                # the public interface: its callers are outside the library
                self.assumed.add("%s is called with a positive %s" % (f.q, f.params[i[0]]["n"]))
            else:
                cs = self.callers(f)
                if not cs or not all(i[0] < len(c["args"]) and self.nonzero(g, c, c["args"][i[0]], depth + 1) for g, c in cs):
                    return False
            return all(self.nonzero(f, x, x, depth + 1) for x in re)
        finally:
            self.busy.discard((f.fid, d))

    def field_sources(self, e):
        """Initialisers of a field in the constructors of its class, if it is assigned nowhere else."""
        q = e.get("q")
        out = []
        for g in self.prog.functions:
            if g.dep:
                continue
            if g.kind == "ctor" and q and g.recq == q.rsplit("::", 1)[0]:
                if g.raw.get("defaulted"):
                    continue
                ini = [i["e"] for i in g.inits if i.get("q") == q and i.get("e")]
                if not ini:
                    return []
                out += [(g, x) for x in ini]
            for x in walk_fn(g):
                if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    l = strip(x["L"])
                    if l["k"] == "mem" and l.get("q") == q:
                        return []
        return out


def gcd(res, prog):
    from .kernel import Kernel, S, P, Unsupported, GAPS
    fs = [f for f in prog.fn("slinky::gcd", dep=True) if f.body and len(f.params) == 2]
    fs.sort(key=lambda f: f.dep)
    if not fs:
        res.note("gcd: not found")
        return
    f = fs[0]
    loops = [x for x in walk_fn(f) if x["k"] in ("while", "for", "do")]
    if len(loops) != 1 or loops[0]["k"] != "while":
        res.note("gcd: loop not recognised")
        return
    w = loops[0]
    k = Kernel(prog)
    s = S()
    a, b = f.params[0]["d"], f.params[1]["d"]
    s.env[a], s.env[b] = P.a("a"), P.a("b")
    try:
        stay = [x for x, c in k.truth(w["c"], s) if c]
        leave = [x for x, c in k.truth(w["c"], s) if not c]
        for x in leave:
            if not x.zero(k.load(x, ("loc", b, ()))):
                res.bad("gcd:exit", f.file, w["l"], "the gcd loop may stop before the second operand is zero")
                return
        for x in stay:
            if x.zero(k.load(x, ("loc", b, ()))):
                res.bad("gcd:zero", f.file, w["l"], "the gcd loop may continue although the second operand is zero")
                return
        n = 0
        for st in stay:
            done = []
            A0, B0 = st.copy(), None
            for x in k.stmt(w["body"], [st], done):
                if not x.ok():
                    continue
                n += 1
                fx = lambda v: sub(x, v)
                A, B = fx(P.a("a")), fx(P.a("b"))
                na, nb = k.load(x, ("loc", a, ())), k.load(x, ("loc", b, ()))
                if not (x.zero(na - B) or x.zero(na + B)):
                    res.bad("gcd:step", f.file, w["l"], "a step of the gcd loop does not move the second operand to the first")
                    return
                if not x.implies(nb):
                    res.bad("gcd:shrink", f.file, w["l"], "the new second operand of the gcd loop may be negative")
                    return
                d = A - nb
                if not any(x.zero(d - B * P.c(c)) for c in range(-3, 4)) and not all(divisible(d, B, x) for _ in (0,)):
                    res.bad("gcd:mod", f.file, w["l"], "the new second operand of the gcd loop is not the first operand modulo the second")
                    return
            if done:
                res.note("gcd: returns inside the loop")
                return
        if f.body["k"] != "block" or w not in f.body["c"]:
            res.note("gcd: the loop is not a statement of the function body")
            return
        end = S()
        end.env[a], end.env[b] = P.a("a"), P.c(0)
        done = []
        live = [end]
        for c in f.body["c"][f.body["c"].index(w) + 1:]:
            live = k.stmt(c, live, done)
        for x in done:
            A = sub(x, P.a("a"))
            if not (x.zero(x.ret - A) or x.zero(x.ret + A)):
                res.bad("gcd:result", f.file, f.line, "gcd does not return its first operand when the second is zero")
                return
    except GAPS as e:
        res.note("gcd: %s not followed" % e)
        return
    if n:
        res.ok("gcd: one step keeps the common divisors and shrinks the second operand (%d paths)" % n)


def sub(st, p):
    for x, v in st.sub:
        if x in p.atoms():
            p = p.subst(x, v)
    return p


def divisible(d, b, s):
    if s.zero(b - d.__class__.c(1)) or s.zero(b + d.__class__.c(1)):
        return True
    if len(b.m) != 1:
        return False
    (k, v), = b.m.items()
    return all(all(x in kk for x in k) for kk in d.m)


def divisions(res, prog):
    t = Traps(prog)
    seen = set()
    n = 0
    for f in prog.functions:
        if f.dep:
            continue
        if f.n in KERNELS and f.file.endswith("base/arithmetic.h"):
            continue
        for x in walk_fn(f):
            if x["k"] != "bin" or x["op"] not in ("/", "%", "/=", "%="):
                continue
            ty = (x.get("t") or "")
            if any(w in ty for w in ("double", "float", "dependent")) or "slinky::" in ty:
                continue
            key = (f.file, x["l"], x["op"], show(x))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            what = "%s: %s" % (f.q.replace("slinky::", ""), show(x)[:90])
            if t.nonzero(f, x, x["R"]):
                res.ok("no-trap " + what)
            else:
                res.bad("trap:%s:%s" % (f.q, show(x)[:90]), f.file, x["l"],
                        "the divisor of %s is not shown to be non-zero here: no condition on it dominates the division" % show(x)[:90])
    res.assumptions += sorted(t.assumed)
    return n
