"""Bounds the compiler computes for an expression contain every value of the expression."""
import multiprocessing
import os
from sa.program import Program, AnalysisBroken, walk_fn
from sa.terms import Terms, Term, C, V, UNDEF, NEG, POS, Rec, Node, St, Unsupported, GAPS, cls_of, FIELDS, OPS, BOOL
from sa import mono

IV = "slinky::interval_expr"


class Jobs:
    """Obligations decided by forked workers; their reports are merged in order."""

    def __init__(self):
        self.jobs = []

    def add(self, fn, *args):
        self.jobs.append((fn, args))

    def run(self, res):
        global _JOBS
        _JOBS = self.jobs
        n = min(8, os.cpu_count() or 1)
        with multiprocessing.get_context("fork").Pool(n) as pool:
            for rs in pool.imap(_job, range(len(self.jobs)), 1):
                for m, args in rs:
                    getattr(res, m)(*args)
        return len(self.jobs)


class Recorder:
    def __init__(self):
        self.log = []

    def ok(self, *a):
        self.log.append(("ok", a))

    def note(self, *a):
        self.log.append(("note", a))

    def bad(self, *a):
        self.log.append(("bad", a))


def _job(i):
    fn, args = _JOBS[i]
    r = Recorder()
    mono.BUDGET[0] = 1500000
    fn(r, *args)
    return r.log


def interval(name, facts, x):
    lo, hi = V(name + ".min"), V(name + ".max")
    facts += [("<=", lo, x), ("<=", x, hi)]
    return Rec(IV, {"min": lo, "max": hi})


def judge(res, key, f, what, paths, value, line=None):
    """paths: (state, lo, hi). Every path must have lo <= value <= hi."""
    bad = und = n = 0
    for st, lo, hi in paths:
        n += 1
        for side, a, b in (("lower", lo, value), ("upper", value, hi)):
            if a is None or b is None or UNDEF in (a, b) or a == NEG or b == POS:
                continue
            if (a == POS and side == "lower") or (b == NEG and side == "upper"):
                res.bad(key, f.file, f.line, "%s: the %s bound is infinite in the wrong direction" % (what, side))
                return
            if mono.prove(st.facts, a, b):
                continue
            cex = mono.refute(st.facts, ("<=", a, b)) if st.exact else None
            if cex is not None:
                res.bad(key, f.file, f.line, "%s: the %s bound %r is wrong; for instance %s" %
                        (what, side, a if side == "lower" else b, ", ".join("%r=%d" % x for x in sorted(cex.items(), key=repr))))
                return
            und += 1
    if und:
        res.note("%s: %d of %d paths not decided" % (what, und, n))
    else:
        res.ok("%s (%d paths)" % (what, n))


def bool_facts(facts, *xs):
    for x in xs:
        facts.append(("isbool", x, x))


def bounds_of(jobs, prog):
    n = 0
    for f in prog.functions:
        if f.dep or f.n != "bounds_of" or not f.body or not f.params:
            continue
        cls = cls_of(f.params[0]["t"])
        if cls is None or not all("interval_expr" in p["t"] for p in f.params[1:]) or f.file.endswith("simplify.cc"):
            continue
        n += 1
        variants = []
        if cls == "call":
            variants.append(("abs", "abs", 1))
        else:
            variants.append((cls, cls, len(f.params) - 1))
        for name, op, k in variants:
            for null in ((True, False) if cls != "call" else (False,)):
                jobs.add(bounds_of_case, prog, f, cls, name, op, k, null)
    return n


def bounds_of_case(res, prog, f, cls, name, op, k, null):
    T = Terms(prog, special=SPECIAL)
    facts = []
    xs = [V(c) for c in ("a", "b", "c")[:k]] if op != "select" else [V("c"), V("t"), V("f")]
    ivs = [interval(x.args[0], facts, x) for x in xs]
    if op in ("logical_and", "logical_or", "logical_not"):
        for x, iv in zip(xs, ivs):
            bool_facts(facts, x, iv.f["min"], iv.f["max"])
    if op == "select":
        bool_facts(facts, ivs[0].f["min"], ivs[0].f["max"])
        facts[0:2] = []
        w = V("cond")
        bool_facts(facts, w)
        facts += [("<=", ivs[0].f["min"], w), ("<=", w, ivs[0].f["max"]), ("bool=", w, xs[0])]
    s = St(facts=facts)
    if cls == "call":
        node = Node("call", {"intrinsic": op, "args": list(xs)})
        args = [node, ivs]
    else:
        node = Node(cls, None if null else dict(zip(FIELDS.get(cls, ("a", "b")), xs)))
        args = [node] + ivs
    what = "bounds_of(%s)%s" % (name, " without a node" if null else "")
    try:
        out = T.run(f, args, s)
        paths = []
        for st, v in out:
            v = T.load(st, v)
            paths.append((st, v.f["min"], v.f["max"]))
    except GAPS as e:
        res.note("%s: not followed (%s)" % (what, e))
        return
    judge(res, "bounds:%s" % name, f, what, paths, Term(op, *xs))


def stair(x, a, b, c):
    return Term("mul", Term("div", Term("add", x, a), b), c)


def pat(T, n):
    """A pattern as a function of the name of the match context."""
    while n["k"] in ("cast", "paren") or (n["k"] in ("ctor", "ilist") and len(n.get("args", n.get("c", []))) == 1):
        n = n["e"] if "e" in n else (n.get("args") or n.get("c"))[0]
    if n["k"] == "ref":
        return lambda m: V("%s:%s" % (m, n["n"]))
    if n["k"] == "call" and (n.get("fn") or "").split("::")[-1].startswith("staircase"):
        ps = [pat(T, a) for a in n["args"]]
        return lambda m: stair(*[p(m) for p in ps])
    raise Unsupported("pattern")


def context(n, s):
    """The match context that an expression names, through any references to it."""
    d = n["d"]
    while isinstance(s.env.get(d), tuple) and s.env[d][:1] == ("loc",) and s.env[d][2] == ():
        d = s.env[d][1]
    return str(d)


def sp_match(T, n, s):
    args = n["args"]
    if len(args) == 3 and args[0]["k"] == "ref":
        p = pat(T, args[1])
        out = []
        for s2, v in T.ev(args[2], s):
            t = s2.copy()
            t.fact("def", T.t(T.load(s2, v)), p(context(args[0], s2)))
            out += [(t, True), (s2.copy(), False)]
        return out
    if len(args) == 2:
        out = []
        for s2, (a, b) in T.evs(args, s):
            t = s2.copy()
            t.fact("def" if a.op == "v" else "==", T.t(a), T.t(b))
            out += [(t, True), (s2.copy(), False)]
        return out
    return None


def sp_matched(T, n, s):
    o = n.get("obj")
    if o is None or o["k"] != "ref":
        return None
    return [(s, V("%s:%s" % (context(o, s), n["args"][0]["n"])))]


def sp_stairs(T, n, s):
    """lb <= stair(x, 1..3) + stair(x, 4..6) <= ub for every x (the kernel itself is judged by C16)."""
    out = []
    for s2, vs in T.evs(n["args"], s):
        vs = [T.t(v) for v in vs]
        xs = {a for r, x, y in s2.facts for t in (x, y) for a in t.atoms() if a.args[0].endswith(":x")}
        for lo in (0, 1):
            for hi in (0, 1):
                t = s2.copy()
                f = {}
                for nm, have in (("min", lo), ("max", hi)):
                    k = V(T.fresh("stairs." + nm))
                    f[nm] = ("some", k) if have else ("none",)
                    if have:
                        for x in xs:
                            b = Term("add", stair(x, *vs[:3]), stair(x, *vs[3:]))
                            t.fact("<=", *((k, b) if nm == "min" else (b, k)))
                out.append((t, Rec("interval", f)))
    return out


def sp_leaf(T, n, s):
    """The helper that rebuilds or reuses a node: it yields the operation of its operands (verified on its own)."""
    pt = n.get("pt") or []
    if len(pt) < 3 or "integral_constant" not in pt[0]:
        return None
    cls = cls_of(pt[1])
    if cls is None:
        return None
    return [(s2, Term(cls, *[T.t(x) for x in vs])) for s2, vs in T.evs(n["args"][2:], s)]


SPECIAL = {"match": sp_match, "matched": sp_matched, "staircase_sum_bounds": sp_stairs, "simplify": sp_leaf}


def leaves(res, prog):
    """The helpers summarised by sp_leaf."""
    n = 0
    for f in prog.functions:
        if f.dep or f.n != "simplify" or not f.body or len(f.params) < 3 or "integral_constant" not in f.params[0]["t"]:
            continue
        cls = cls_of(f.params[1]["t"])
        n += 1
        for null in (True, False):
            T = Terms(prog)
            k = len(f.params) - 2
            xs = [V(c) for c in "abc"[:k]]
            ops = [V("op." + c) for c in "abc"[:k]]
            node = Node(cls, None if null else dict(zip(FIELDS.get(cls, ("a", "b")), ops)))
            what = "simplify(%s)%s of given operands" % (cls, " without a node" if null else "")
            try:
                paths = [(st, T.t(v), T.t(v)) for st, v in T.run(f, [True, node] + xs, St())]
            except GAPS as e:
                res.note("%s: not followed (%s)" % (what, e))
                continue
            judge(res, "leaf:%s" % cls, f, what, paths, Term(cls, *xs))
    return n


# ---- bounds without context: the evaluator of constant bounds

ENTRIES = {"constant_lower_bound": -1, "constant_upper_bound": 1, "evaluate_constant": 0,
           "evaluate_constant_lower_bound": -1, "evaluate_constant_upper_bound": 1}
CLASSES = ["variable", "constant", "add", "sub", "mul", "div", "mod", "min", "max", "less", "less_equal", "equal", "not_equal",
           "logical_and", "logical_or", "logical_not", "select"]


def evaluator_special(prog, visits, ecls, node):
    def mutate(T, n, s):
        f = prog.callee(n["fid"]) if n.get("fid") else None
        if len(n["args"]) == 1 and (f is None or f.recq != ecls or f.virt):
            out = []
            objs = T.ev(n["obj"], s) if n.get("obj") is not None else [(s, ("loc", "this", ()))]
            for s1, o in objs:
                if isinstance(o, Rec):
                    d = T.fresh("obj")
                    s1.env[d] = o
                    o = ("loc", d, ())
                for s2, (x,) in T.evs(n["args"], s1):
                    x = T.t(x)
                    if x.op == "root":
                        out += dispatch(T, s2, o)
                        continue
                    sign = T.load(s2, T.field_loc(s2, o, "sign"))
                    req = T.load(s2, T.field_loc(s2, o, "constant_required"))
                    out += summary(T, s2, x, sign, req)
            return out
        return None

    def summary(T, s, x, sign, req):
        if x.op == "undef":
            return [(s, UNDEF)]
        if x.op == "c":
            return [(s, x)]
        r = V(T.fresh("bound"))
        t = s.copy()
        c = sign.args[0] if sign.op == "c" else None
        if c is None:
            raise Unsupported("sign")
        if c == 0:
            t.fact("==", r, x)
        elif c < 0:
            t.fact("<=", r, x)
        else:
            t.fact("<=", x, r)
        if x.op in BOOL or ("isbool", x, x) in s.facts:
            t.fact("isbool", r, r)
        out = [(t, r)]
        if req is not False:
            out.append((s.copy(), UNDEF))
        return out

    def dispatch(T, s, o):
        f = visits.get(node.cls)
        if f is None:
            s.env["#result"] = node.term()
            return [(s, node.term())]
        out = []
        for s2, _ in T.run(f, [node], s, this=o):
            r = s2.env.get("#result")
            if r is None:
                raise Unsupported("no result")
            out.append((s2, r))
        return out

    def set_result(T, n, s):
        out = []
        for s2, vs in T.evs(n["args"][:1], s):
            s3 = s2.copy()
            v = vs[0]
            s3.env["#result"] = v.term() if isinstance(v, Node) else v
            out.append((s3, None))
        return out

    def visit(T, n, s):
        f = prog.callee(n["fid"]) if n.get("fid") else None
        if f is not None and f.recq != ecls:
            s = s.copy()
            s.env["#result"] = node.term()      # the base class rebuilds the node
            return [(s, None)]
        return None

    return {"mutate": mutate, "set_result": set_result, "visit": visit}


def evaluator(res, jobs, prog):
    n = 0
    for entry, sign in ENTRIES.items():
        fs = [f for f in prog.fn("slinky::" + entry, 1) if f.body]
        if not fs:
            continue
        f = fs[0]
        ecls = None
        for x in walk_fn(f):
            if x["k"] == "ctor" and any(g.n == "visit" for g in prog.methods(x.get("rec", "").replace("const ", ""))):
                ecls = x["rec"].replace("const ", "")
        if ecls is None:
            res.note("%s: evaluator not found" % entry)
            continue
        visits = {}
        for g in prog.methods(ecls):
            if g.n == "visit" and g.body and not g.dep:
                visits[cls_of(g.params[0]["t"])] = g
        for cls in CLASSES + ["abs", "and_then", "or_else", "buffer_at"]:
            n += 1
            jobs.add(evaluator_case, prog, entry, sign, f, ecls, visits, cls)
    return n


def evaluator_case(res, prog, entry, sign, f, ecls, visits, cls):
    if cls in ("abs", "and_then", "or_else", "buffer_at"):
        k = 2 if cls != "abs" else 1
        xs = [V(c) for c in "ab"[:k]]
        node = Node("call", {"intrinsic": cls, "args": xs, "target": V("target")})
        value = Term(cls, *xs)
    elif cls == "variable":
        node = Node(cls, {"self": V("x"), "sym": V("sym"), "field": "none", "dim": C(0)})
        value = V("x")
    elif cls == "constant":
        node = Node(cls, {"value": V("x")})
        value = V("x")
    else:
        fs2 = FIELDS.get(cls, ("a", "b"))
        xs = [V(x if len(x) == 1 else x[0]) for x in fs2]
        node = Node(cls, dict(zip(fs2, xs)))
        value = Term(cls, *xs)
    T = Terms(prog, special=evaluator_special(prog, visits, ecls, node))
    what = "%s of %s" % (entry, cls)
    try:
        out = T.run(f, [Term("root")], St())
    except GAPS as e:
        res.note("%s: not followed (%s)" % (what, e))
        return
    paths, bpaths = [], []
    for st, v in out:
        v = T.load(st, v)
        if isinstance(v, tuple):
            v = v[1] if v[0] == "some" else UNDEF
        v = T.t(v)
        paths.append((st, v if sign <= 0 else None, v if sign >= 0 else None))
        if v != UNDEF:
            bpaths.append((st, v))
    judge(res, "const:%s:%s" % (entry, cls), f, what, paths, value)
    if cls in BOOL:
        # the induction needs bounds of booleans to be boolean
        for st, v in bpaths:
            if not mono.prove(st.facts, C(0), v) or not mono.prove(st.facts, v, C(1)):
                cex = mono.refute(st.facts, ("isbool", v, v)) if st.exact else None
                if cex is None:
                    res.note("%s: not shown boolean" % what)
                else:
                    res.bad("const:%s:%s:bool" % (entry, cls), f.file, f.line,
                            "%s: the bound %r of a boolean need not be 0 or 1" % (what, v))
                break


# ---- arithmetic of intervals

def ival(name, lo, hi, facts, *xs):
    f = {"min": V(name + ".min") if lo else UNDEF, "max": V(name + ".max") if hi else UNDEF}
    for x in xs:
        if lo:
            facts.append(("<=", f["min"], x))
        if hi:
            facts.append(("<=", x, f["max"]))
    return Rec(IV, f)


BINARY = {"*": "mul", "/": "div", "+": "add", "-": "sub"}


def interval_arith(res, prog):
    """x in a, y in b => x op y in a op b, where either bound of an interval may be missing (unbounded)."""
    n = 0
    for f in prog.functions:
        if f.dep or not f.body or not f.file.startswith("slinky/runtime/"):
            continue
        op = f.n[8:] if f.n.startswith("operator") else f.n
        pts = [p["t"].replace("const ", "").replace("&", "").strip() for p in f.params]
        method = f.recq == IV
        base = op[:-1] if op.endswith("=") and op not in ("==", "<=", ">=", "!=") else op
        sig = (["slinky::interval_expr"] if method and not f.static else []) + pts
        if any(t not in ("slinky::interval_expr", "slinky::expr", "slinky::expr_ref") for t in sig):
            continue
        ivs = [i for i, t in enumerate(sig) if t == "slinky::interval_expr"]
        if base in BINARY and len(sig) in (1, 2) and ivs:
            goals = ["contains"]
        elif base == "|" and len(ivs) == 2:
            goals = ["union"]
        elif base == "&" and len(ivs) == 2:
            goals = ["intersection"]
        elif f.n == "select" and len(sig) == 3 and len(ivs) == 2:
            goals = ["select"]
        elif f.n == "align" and len(sig) == 2 and ivs == [0]:
            goals = ["align"]
        else:
            continue
        goal = goals[0]
        # union must contain the members of both; the others are given one member of each
        for member in ((0, 1) if goal == "union" else (None,)):
            for missing in range(4 ** len(ivs)):
                has = [(missing >> i) & 1 == 0 for i in range(2 * len(ivs))]
                if goal in ("select", "align") and not all(has):
                    continue        # these need both bounds
                facts, args, vals = [], [], []
                for i, t in enumerate(sig):
                    x = V("xyz"[i])
                    if i in ivs:
                        k = ivs.index(i)
                        if goal == "union":
                            mem = [V("x")] if member == k else []
                        elif goal == "intersection":
                            mem = [V("x")]
                        else:
                            mem = [x]
                        args.append(ival("ab"[k], has[2 * k], has[2 * k + 1], facts, *mem))
                        vals.append(mem[0] if mem else None)
                    else:
                        args.append(x)
                        vals.append(x)
                if goal == "align":
                    facts.append(("<=", C(1), vals[1]))
                value = (Term("sub", C(0), vals[0]) if len(sig) == 1 else Term(BINARY[base], *vals)) if goal == "contains" else \
                    Term("select", *vals) if goal == "select" else V("x") if goal != "align" else vals[0]
                what = "%s%s%s of (%s)" % ("interval_expr::" if method else "", f.n, "" if member is None else " (member of operand %d)" % member,
                                         ", ".join("%s" % (a if not isinstance(a, Rec) else "[%r, %r]" % (a.f["min"], a.f["max"])) for a in args))
                what = what.replace("undef", "_")
                T = Terms(prog, )
                s = St(facts=facts)
                n += 1
                try:
                    this = None
                    if method:
                        s.env["obj"] = args[0]
                        this = ("loc", "obj", ())
                    out = T.run(f, args[1:] if method else args, s, this=this)
                    paths = []
                    for st, v in out:
                        v = T.load(st, v) if v is not None else st.env["obj"]
                        paths.append((st, v.f["min"], v.f["max"]))
                except GAPS as e:
                    res.note("%s: not followed (%s)" % (what, e))
                    continue
                judge(res, "interval:%s:%s" % (f.n, goal), f, what, paths, value)
    return n


# ---- proofs and tests of signs

SIGNS = {"is_positive": lambda x: ("<", C(0), x), "is_negative": lambda x: ("<", x, C(0)),
         "is_non_negative": lambda x: ("<=", C(0), x), "is_non_positive": lambda x: ("<=", x, C(0)),
         "is_zero": lambda x: ("==", x, C(0)), "is_one": lambda x: ("==", x, C(1)),
         "is_boolean": lambda x: ("isbool", x, x)}


def entails(facts, f):
    rel, a, b = f
    if rel == "isbool":
        return f in facts or any(r == "isbool" and x == a for r, x, y in facts) or \
            mono.prove(facts, C(0), a) and mono.prove(facts, a, C(1))
    if rel == "<":
        return mono.prove_false(facts, ("<=", b, a))
    if rel == "<=":
        return mono.prove(facts, a, b)
    if rel == "==":
        return mono.prove(facts, a, b) and mono.prove(facts, b, a)
    return mono.prove_false(facts, {"!=": ("==", a, b)}[rel])


def claim(res, key, f, what, outs):
    """outs: (state, fact that must hold)."""
    und = 0
    for st, fact in outs:
        if entails(st.facts, fact):
            continue
        cex = mono.refute(st.facts, fact) if st.exact else None
        if cex is not None:
            res.bad(key, f.file, f.line, "%s: %s does not hold on a path; for instance %s" %
                    (what, "%r %s %r" % (fact[1], fact[0], fact[2]), ", ".join("%r=%d" % x for x in sorted(cex.items(), key=repr))))
            return
        und += 1
    if und:
        res.note("%s: %d of %d paths not decided" % (what, und, len(outs)))
    else:
        res.ok("%s (%d paths)" % (what, len(outs)))


def sp_inf(sign):
    def g(T, n, s):
        out = []
        for s2, (v,) in T.evs(n["args"], s):
            v = T.t(v)
            out += T.known(s2, ("<", C(0), v) if sign > 0 else ("<", v, C(0)))
        return out
    return g


def sp_intrinsic(T, n, s):
    out = []
    for s2, (v, i) in T.evs(n["args"], s):
        v = T.t(v)
        if not isinstance(i, str) or v.op != "v":
            raise Unsupported("intrinsic")
        y = V(T.fresh("arg"))
        t = s2.copy()
        if i in ("abs", "and_then", "or_else"):
            k = 1 if i == "abs" else 2
            ys = [V(T.fresh("arg")) for _ in range(k)]
            t.fact("==", v, Term(i, *ys))
            node = Node("call", {"intrinsic": i, "args": ys})
        else:
            node = Node("call", {"intrinsic": i, "args": [y]})
        out += [(t, node), (s2.copy(), Node("call", None))]
    return out


def sp_type(T, n, s):
    out = []
    for s2, (v,) in T.evs(n["args"], s):
        out += T.known(s2, ("isbool", T.ty[0], T.ty[0]))
    return out


def contracts(res, prog):
    n = 0

    def run(f, args, s, special=None, this=None, only=None):
        T = Terms(prog, special=dict(special or {}))
        T.ty = args
        return T, T.run(f, args, s, this=this)

    for name, goal in SIGNS.items():
        for f in prog.fn("slinky::" + name, 1):
            if not f.body or "expr" not in f.params[0]["t"]:
                continue
            n += 1
            x = V("x")
            try:
                _, out = run(f, [x], St(), {"is_positive_infinity": sp_inf(1), "is_negative_infinity": sp_inf(-1),
                                            "as_intrinsic": sp_intrinsic, "is_boolean_node": sp_type, "type": lambda T, n, s: [(s, C(0))]})
                outs = []
                T = Terms(prog)
                for st, v in out:
                    for st2, b in T.as_bool(st, T.load(st, v)):
                        if b:
                            outs.append((st2, goal(x)))
            except GAPS as e:
                res.note("%s: not followed (%s)" % (name, e))
                continue
            claim(res, "sign:" + name, f, "%s is true only if it is so" % name, outs)

    # boolean(x), strip_boolean(x): zero exactly if x is
    for name in ("boolean", "strip_boolean"):
        for f in [g for g in prog.functions if g.n == name and g.body and not g.dep and len(g.params) == 1]:
            n += 1
            x = V("x")
            try:
                T, out = run(f, [x], St(), {"strip_boolean": sp_strip})
                outs = []
                for st, v in out:
                    v = T.t(T.load(st, v))
                    if v.op != "undef":
                        outs.append((st, ("bool=", v, x)))
                        if name == "boolean":
                            outs.append((st, ("isbool", v, v)))
                bad = [(st, c) for st, c in outs if not (bool_entails(st.facts, c[1], c[2]) if c[0] == "bool=" else entails(st.facts, c))]
                for st, c in bad:
                    cex = mono.refute(st.facts, c) if st.exact else None
                    if cex:
                        res.bad("boolean:" + name, f.file, f.line, "%s changes whether a value is zero; for instance %s" %
                                (name, ", ".join("%r=%d" % y for y in sorted(cex.items(), key=repr))))
                        break
                else:
                    if bad:
                        res.note("%s: %d paths not decided" % (name, len(bad)))
                    else:
                        res.ok("%s keeps whether a value is zero (%d paths)" % (name, len(outs)))
            except GAPS as e:
                res.note("%s: not followed (%s)" % (name, e))

    # prove_*: never claims what does not follow
    for f in prog.functions:
        if f.dep or not f.body or f.file != "slinky/builder/simplify.cc" or not f.params or \
                f.n not in ("prove_constant_true", "prove_constant_false", "attempt_to_prove", "prove_true", "prove_false"):
            continue
        if not f.recq:
            continue        # the entry points forward to the members
        n += 1
        x = V("x")
        facts = []
        if "interval_expr" in f.params[0]["t"]:
            iv = interval("e", facts, x)
            bool_facts(facts, x, iv.f["min"], iv.f["max"])
            args = [iv]
        else:
            args = [x]
        try:
            T, out = run(f, args, St(facts=facts), {"where_true": sp_where})
            outs = []
            for st, v in out:
                v = T.load(st, v)
                pos = f.n != "prove_constant_false" and f.n != "prove_false"
                if f.n == "attempt_to_prove":
                    if v[0] == "some":
                        for st2, b in T.as_bool(st, v[1]):
                            outs.append((st2, ("!=" if b else "==", x, C(0))))
                else:
                    for st2, b in T.as_bool(st, v):
                        if b:
                            outs.append((st2, ("!=" if pos else "==", x, C(0))))
        except GAPS as e:
            res.note("%s: not followed (%s)" % (f.n, e))
            continue
        claim(res, "prove:%s:%s" % (f.n, "interval" if "interval" in f.params[0]["t"] else "expr"), f,
              "%s(%s) claims only what follows" % (f.n, f.params[0]["t"]), outs)
    return n


def sp_strip(T, n, s):
    out = []
    for s2, (v,) in T.evs(n["args"], s):
        w = V(T.fresh("w"))
        s3 = s2.copy()
        s3.fact("bool=", w, T.t(v))
        out.append((s3, w))
    return out


def bool_entails(facts, a, b):
    """a is zero exactly if b is."""
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if any(r == "bool=" and {p, q} == {x, y} for r, p, q in facts):
            return True
        if x == Term("not_equal", y, C(0)):
            return True
        for r, p, q in facts:
            if r == "==" and x in (p, q):
                o = q if x == p else p
                if o.op == "not_equal" and (o.args[1] == C(0) or ("==", C(0), o.args[1]) in facts or ("==", o.args[1], C(0)) in facts) and bool_entails([f for f in facts if f != (r, p, q)], o.args[0], y):
                    return True
            if r == "bool=" and x in (p, q):
                o = q if x == p else p
                if o != y and bool_entails([f for f in facts if f != (r, p, q)], o, y):
                    return True
    if a.op == "c":
        return mono.prove_false(facts, ("==" if a.args[0] else "!=", b, C(0)))
    return False


def sp_where(T, n, s):
    """where_true(x): bounds of whether x is zero, as booleans."""
    out = []
    for s2, (v,) in T.evs(n["args"], s):
        w, lo, hi = V(T.fresh("w")), V(T.fresh("lo")), V(T.fresh("hi"))
        s3 = s2.copy()
        s3.fact("bool=", w, T.t(v))
        s3.fact("<=", lo, w)
        s3.fact("<=", w, hi)
        for y in (w, lo, hi):
            s3.fact("isbool", y, y)
        out.append((s3, Rec(IV, {"min": lo, "max": hi})))
    return out


def check(res, tier):
    prog = Program()
    res.rule("bounds", "the interval computed for an operation contains the operation of any members of the operands' intervals")
    res.rule("constant-bounds", "each case of the constant evaluator yields a bound of the requested side, given bounds of the operands")
    res.rule("intervals", "arithmetic, union and intersection of intervals, also half bounded ones, contain what they must")
    res.rule("proofs", "a test of sign or a proof of a condition succeeds only if it follows from the bounds it looked at")
    res.assumptions += ["values are mathematical integers (no overflow)", "rewrites of subexpressions preserve their values",
                        "the matcher of staircases binds what it says; the staircase kernel is judged by C16"]
    leaves(res, prog)
    jobs = Jobs()
    res.need(evaluator(res, jobs, prog), "cases of the constant bounds evaluator", 20)
    res.need(interval_arith(res, prog), "operations on intervals", 20)
    res.need(contracts(res, prog), "tests and proofs", 8)
    res.need(bounds_of(jobs, prog), "bounds_of functions", 10)
    jobs.run(res)


LEVEL = "other"
EXPLANATION = "abstract interpretation of the functions that compute bounds; monotonicity and sign reasoning on the formulas they build"
