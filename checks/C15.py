"""C15: an overflow that is detected is never used."""
from sa.program import Program, AnalysisBroken, AnchorMissing, walk_fn, show
from sa.kernel import GAPS
from sa.flow import C, TRUE, FALSE, mentions
from sa.overflow import Overflow, Template, POISON, FAIL, failing, key

LEVEL = "other"
EXPLANATION = ("The functions that compute strides, sizes and address ranges of buffers are interpreted with every operation that "
               "detects overflow taken both ways: after an overflow they have to report failure on every path, and every sum, "
               "difference and product of values that depend on the buffer has to be such an operation. The functions that fold "
               "constants may only compute a result where the same operands were found not to overflow.")


def about_base(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "fld" and t[2] == "base":
        return True
    return any(about_base(x) for x in t[1:] if isinstance(x, tuple))


class Sizes(Overflow):
    def assume(self, s, v):
        ts, fs = super().assume(s, v)
        if self.oks:
            a, pol = self.norm(v)
            if a[0] == "<" and about_base(a[1]) and not about_base(a[2]):
                # The address is not less than an offset.
                out = []
                for x in (fs if pol else ts):
                    x = x.copy()
                    x.chk = x.chk[:2] + (x.chk[2] | {("low",)},)
                    out.append(x)
                if pol:
                    fs = out
                else:
                    ts = out
        return ts, fs

    def model(self, st, n, fn, obj, args, frame):
        q = n.get("fn", "")
        if q in self.modular:
            ev = self.event(st, n)
            return [(ev, self.modular[q]), (st, ("some", ("ret", n["id"])) if self.modular[q] == FAIL else ("ret", n["id"]))]
        return None


def sizes(res, prog):
    ex = ("slinky::dim::", "slinky::align_up", "slinky::internal::copy_small", "slinky::span", "std::")
    roots = [("slinky::raw_buffer::init_strides", {"slinky::raw_buffer::init_strides_impl": FAIL}),
             ("slinky::raw_buffer::init_strides_impl", {}),
             ("slinky::raw_buffer::size_bytes", {}),
             ("slinky::raw_buffer::allocate", {"slinky::raw_buffer::init_strides": FAIL}),
             ("slinky::validate_buffer", {})]
    done = 0
    for q, modular in roots:
        fs = [f for f in prog.functions if f.q == q and f.body and not f.dep and "raw_buffer" in (f.recq or "") + "".join(p["t"] for p in f.params)]
        if not fs:
            res.note("not decided: %s not found" % q)
            continue
        for f in fs:
            done += 1
            E = Sizes(prog, exempt=ex, oks=q.endswith("validate_buffer"))
            E.modular = modular
            try:
                outs = E.run(f, E.start())
            except GAPS as x:
                res.note("%s: %s" % (q, x))
                continue
            judge(res, f, E, outs, q)
            if q.endswith("validate_buffer"):
                address(res, f, E, outs)
    res.need(done, "functions that compute the sizes of buffers", 3)


def uses(E, s, v):
    """Whether a way to return depends on a result that overflowed."""
    if s.chk[1]:
        return "a branch depends on it"
    if E.poisoned(v):
        return "the result depends on it"
    for k, x in s.store.items():
        if k[0] != "var" and E.poisoned(x):
            b = k
            while b[0] in ("fld", "elem"):
                b = b[1]
            if b[0] not in ("var", "tmp"):
                return "it is stored"
    return None


def judge(res, f, E, outs, q):
    name = q.split("::")[-1]
    bad = {}
    for s, v in outs:
        if not s.chk[0]:
            continue
        if E.is_loc(v):
            v = E.read_loc(s, v)
        if not failing(v):
            if E.decide(s, v) is False and not E.poisoned(v):
                continue
            how = uses(E, s, v)
            if how:
                bad.setdefault(s.trace, how)
    for ev, how in bad.items():
        res.bad("%s:used:%s" % (name, ev[2]), f.file, f.line, "%s can succeed after %s overflowed (%s:%s): %s" % (q, ev[2], ev[0], ev[1], how), [])
    for file, line, fq, msg in sorted(set(E.bad)):
        res.bad("%s:raw:%s" % (name, msg), file, line, "in %s, reached from %s: %s" % (fq, q, msg), [])
    if not bad and not E.bad:
        res.ok("%s: %d operations that detect overflow, %d paths" % (q, len(E.checked), len(outs)))
    res.count("checked operations", len(E.checked))
    res.count("paths", len(outs))


def address(res, f, E, outs):
    """Where the buffer has memory, the answer yes means that both ends of its range are addresses."""
    n = 0
    for s, v in outs:
        if s.chk[0] or failing(v):
            continue
        if any(about_base(k) and k[0] in ("fld", "init", "==") and val is False and "<" not in k for k, val in s.facts.items() if isinstance(k, tuple)):
            continue
        n += 1
        low = ("low",) in s.chk[2] or \
            any(o[0] == "-" and about_base(o[1]) for o in s.chk[2] if o[0] in "+-*")
        high = any(o[0] == "+" and (about_base(o[1]) or about_base(o[2])) for o in s.chk[2] if o[0] in "+-*")
        for ok, what in ((low, "lowest"), (high, "highest")):
            if not ok:
                res.bad("validate_buffer:" + what, f.file, f.line,
                        "validate_buffer accepts a buffer whose %s address was not found to be representable" % what, [])
                return
    if n:
        res.ok("validate_buffer: lowest and highest address representable on %d accepting paths" % n)


class Consts(Overflow):
    """Folding of constants: a result may be computed where the same operands were found not to overflow."""
    def model(self, st, n, fn, obj, args, frame):
        q = n.get("fn", "")
        base = (q or n.get("name", "")).split("<")[0].split("::")[-1]
        if base == "make_binary" and len(args) == 2:
            a, b = self.val(st, args[0]), self.val(st, args[1])
            t = [str(x.get("t", "")) for x in n["args"]]
            if any("expr" in x for x in t):
                return [(st, ("tree", a, b))]
            self.rawops.add((n.get("l"), n["id"]))
            if key("T", a, b) not in st.chk[2] and ("T", a, b) not in st.chk[2]:
                self.raw_bad(n, "%s is folded without asking whether it overflows" % show(n)[:100], st)
        return None

    def data(self, v):
        return True


def folding(res, prog):
    roots = []
    for f in prog.functions:
        if f.body is None:
            continue
        if f.q == "slinky::simplify" and not f.dep and len(f.params) == 3 and f.params[0]["t"].replace("class ", "") in (
                "const slinky::add *", "const slinky::sub *", "const slinky::mul *"):
            roots.append((f, f.params[0]["t"].split("::")[-1].split(" ")[0]))
        elif f.q.endswith("constant_adder::visit") and not f.dep and f.params and f.params[0]["t"].endswith("constant *"):
            roots.append((f, "constant_adder"))
        elif f.q.split("<")[0] in ("slinky::make_or_eval_binary", "slinky::substitute_binary") and "index_t" in "".join(p["t"] for p in f.params) + \
                "".join("index_t" for p in f.params if p["t"] == "long"):
            roots.append((f, f.q.split("<")[0].split("::")[-1]))
    seen = {}
    for f, nm in roots:
        if nm in ("make_or_eval_binary", "substitute_binary") and not f.dep and any(x is not f and y == nm and x.dep for x, y in roots):
            continue
        E = Consts(prog, oks=True, exempt=("std::", "slinky::euclidean", "slinky::should_commute"))
        try:
            outs = E.run(Template(f) if f.dep else f, E.start())
        except GAPS as x:
            res.note("%s: %s" % (nm, x))
            continue
        seen[nm] = seen.get(nm, 0) + len(E.rawops)
        for file, line, fq, msg in sorted(set(E.bad)):
            res.bad("fold:%s:%s" % (nm, msg), file, line, "in %s: %s" % (fq, msg), [])
        if not E.bad:
            res.ok("folding %s: %d operations, %d questions, %d paths" % (nm, len(E.rawops), len(E.checked), len(outs)))
    res.need(len(seen), "functions that fold constants", 3)


class Flags(Overflow):
    """Replacements and predicates of rewrites: whoever asks for their value looks at the flag before using it."""
    def inline_ok(self, f, n):
        return False

    def model(self, st, n, fn, obj, args, frame):
        base = (n.get("fn", "")).split("<")[0].split("::")[-1]
        if base in ("substitute", "substitute_binary") and len(args) >= 3 and n["args"][2].get("t", "").startswith("bool"):
            i = 2
            f = self.read_loc(st, args[i]) if self.is_loc(args[i]) else args[i]
            loc = None
            a = n["args"][i]
            while a.get("k") in ("paren", "cast"):
                a = a["e"]
            for s1, v in self.eval(a, st, frame, lv=True):
                loc = self.resolve_loc(s1, v) if self.is_loc(v) else None
            if loc is None:
                return None
            self.checked.add((n.get("l"), n["id"]))
            ev = self.event(st, n)
            ev = self.write(ev, loc, TRUE, n, frame)
            return [(ev, POISON), (st, ("ret", n["id"]))]
        return None


def rewriting(res, prog):
    """A replacement or predicate in which a constant overflowed is not used."""
    done = set()
    flags = 0
    for f in prog.functions:
        if f.body is None or not f.dep or not f.file.startswith("slinky/builder/"):
            continue
        if (f.file, f.line) in done:
            continue
        body = None
        has = False
        for n in walk_fn(f):
            c = n.get("callee")
            nm = n.get("fn") or (c.get("n") if isinstance(c, dict) else None) or ""
            if n.get("k") == "call" and nm.split("<")[0].split("::")[-1] in ("substitute", "substitute_binary", "binary_overflows") and \
                    (len(n.get("args", [])) == 2 if "overflows" in nm else
                     len(n.get("args", [])) >= 3 and n["args"][2].get("t", "").startswith("bool")):
                has = True
        if not has:
            continue
        fp = [p for p in f.params if p["t"].replace(" ", "") == "bool&"]
        local = any(v.get("t") == "bool" for n in walk_fn(f) if n.get("k") == "decl" for v in n.get("v", []))
        if not fp and not local:
            continue
        done.add((f.file, f.line))
        E = Flags(prog, raw=False, oks=True)
        try:
            outs = E.run(Template(f), E.start())
        except GAPS as x:
            res.note("%s:%s: %s" % (f.q, f.line, x))
            continue
        bad = None
        ask = 0
        for s, v in outs:
            over = s.chk[0] or any(o[0] == "no" for o in s.chk[2])
            if not over:
                continue
            ask += 1
            if fp:
                loc = E.resolve_loc(s, ("var", fp[0]["d"], ("root",)))
                if s.store.get(loc) != TRUE:
                    bad = "an overflow in %s is not reported through %s" % (s.trace[2] if s.trace else "an operation", fp[0]["n"])
            elif v == TRUE or E.poisoned(v) and s.chk[0]:
                bad = "succeeds although a constant overflowed in %s" % (s.trace[2] if s.trace else "an operation")
        nm = "%s/%d" % (f.q.split("::")[-1], len(f.params))
        if bad:
            res.bad("rewrite:%s:%s" % (nm, ",".join(p["t"].split("::")[-1].split("<")[0] for p in f.params)), f.file, f.line, "%s: %s" % (f.q, bad), [])
        elif ask:
            flags += 1
            res.ok("%s (line %s): %d paths on which a constant overflowed" % (f.q, f.line, ask))
    res.need(flags, "functions that pass on or look at the flag of an overflow in a rewrite", 3)


def check(res, tier):
    prog = Program()
    res.rule("overflow-fails", "after an operation that detects overflow found one, every path ends in a result that reports failure")
    res.rule("no-raw-arithmetic", "in these functions, + - * and negation of 64-bit values that depend on the buffer detect overflow")
    res.rule("folds-guarded", "constants are added, subtracted, multiplied and negated only where the same operands were found not to overflow")
    res.assumptions += ["the extent of one dimension is representable (dim::extent)", "the alignment given is positive"]
    sizes(res, prog)
    folding(res, prog)
    rewriting(res, prog)
