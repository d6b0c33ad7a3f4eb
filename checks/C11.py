"""What expressions mean, in the interpreter and in the functions that build them."""
from sa.program import Program, AnalysisBroken, AnchorMissing, walk_fn
from sa.kernel import P, Unsupported, GAPS, S
from sa.evalexpr import EvalExpr, ROOT
from sa.builders import Builder, Meaning

LEVEL = "other"
EXPLANATION = ("The interpreter's expression evaluation is interpreted abstractly once per kind of expression, of buffer field and of "
               "intrinsic, with opaque operand values, and the result on every path is compared with the operator's definition by "
               "linear reasoning over path conditions; every function that builds an operator is interpreted and the tree it returns "
               "compared with the operator it is named after.")
BIN = ["add", "sub", "mul", "div", "mod", "min", "max", "equal", "not_equal", "less", "less_equal", "logical_and", "logical_or"]
EV = "slinky/runtime/evaluate.cc"
ES = "slinky/runtime/expr_stmt.cc"


def enums(prog):
    out = {}
    for f in prog.functions:
        if not f.file.endswith((".cc", ".h")):
            continue
        for n in walk_fn(f):
            if n.get("k") == "ref" and n.get("dk") == "enum" and n.get("q", "").startswith("slinky::") and n.get("cv") is not None:
                out[n["q"]] = int(n["cv"])
    return out


def node(cls, **f):
    return ("node", cls, f)


def atom(n):
    return ("atom", n)


def bin_(op, a, b):
    return node(op, a=a, b=b)


def call(name, *args):
    return node("call", intrinsic=name, args=("vec", list(args)))


def same(M, s, v, want):
    """Whether value v equals the meaning of tree `want` on every way to continue path s; returns a counterexample path or None."""
    n0 = len(s.sub)
    for s2, w in M.sem(s.copy(), want):
        x = v
        for m in s2.sub[n0:]:
            from sa.views import deep
            x = deep(x, m)
        if isinstance(x, bool):
            x = P.c(int(x))
        if not isinstance(x, P):
            return s2, x, w
        if not s2.zero(x - w):
            return s2, x, w
    return None


def show(s, x, w):
    return "gives %s instead of %s where %s" % (x, w, "; ".join("%s >= 0" % c for c in s.cons if c.const() is None)[:160] or "anything")


def evaluator(res, prog, en):
    roots = [f for f in prog.functions if f.q.endswith("::evaluator::eval") and len(f.params) == 1 and f.params[0]["t"] == "const slinky::expr &"]
    if len(roots) != 1:
        raise AnchorMissing("evaluator::eval(const expr&) not found")
    root = roots[0]
    K = lambda n: en["slinky::expr_node_type::" + n]
    a, b = atom("val:op.a"), atom("val:op.b")
    want = {n: bin_(n, a, b) for n in BIN}
    want["logical_not"] = node("logical_not", a=a)
    want["select"] = node("select", condition=atom("val:op.condition"), true_value=atom("val:op.true_value"), false_value=atom("val:op.false_value"))
    for n in list(want) + ["constant"]:
        key = "eval:" + n
        E = EvalExpr(prog, {ROOT: K(n)})
        try:
            outs = E.run(root, [("node", ROOT)], E.state(), ("self",))
        except GAPS as x:
            res.note("%s: %s" % (key, x))
            continue
        M = Meaning(prog)
        bad = None
        if not outs:
            bad = "never returns a value"
        for s, v in outs:
            if n == "constant":
                if v != ("node", ROOT + ("value",)) and v != P.a("data:op.value"):
                    bad = "does not return the constant's value but %r" % (v,)
                continue
            if isinstance(v, tuple):
                bad = "returns something else than a value computed from its operands"
                continue
            r = same(M, s, v, want[n])
            if r:
                bad = show(*r)
            ev = s.env.get("!evald", ())
            if n == "select" and (ROOT + ("true_value",) in ev) and (ROOT + ("false_value",) in ev):
                bad = "evaluates both values of the select"
        if bad:
            res.bad(key, EV, root.line, "evaluating %s %s" % (n, bad))
        else:
            res.ok("evaluating %s computes it (%d paths)" % (n, len(outs)))


def variables(res, prog, en, root):
    F = {n: en["slinky::buffer_field::" + n] for n in ("none", "rank", "elem_size", "size_bytes", "min", "max", "stride", "fold_factor") if "slinky::buffer_field::" + n in en}
    if len(F) < 8:
        raise AnchorMissing("buffer fields: found %d" % len(F))
    for fld, cv in F.items():
        key = "eval:variable:" + fld
        E = EvalExpr(prog, {ROOT: en["slinky::expr_node_type::variable"], ROOT + ("field",): cv})
        s = E.state()
        d = P.a("data:op.dim")
        s.add(d)
        try:
            outs = E.run(root, [("node", ROOT)], s, ("self",))
        except GAPS as x:
            res.note("%s: %s" % (key, x))
            continue
        bad = None if outs else "never returns a value"
        for s2, v in outs:
            if s2.env.get("!looked") != (("node", ROOT + ("sym",)),):
                bad = "does not look up its own symbol"
            elif fld == "none":
                if v != ("ptr", ("loc", "buf", ())):
                    bad = "does not return the value of the symbol"
            elif fld in ("rank", "elem_size"):
                if v != P.a(fld):
                    bad = "returns %s" % (v,)
            elif fld == "size_bytes":
                if v != P.a("size_bytes()"):
                    bad = "returns %s" % (v,)
            else:
                inside = s2.implies(P.a("rank") - d - P.c(1))
                outside = s2.implies(d - P.a("rank"))
                if not inside and not outside:
                    bad = "does not distinguish dimensions past the rank"
                w = E.content(s2, "bufdims", d, fld + "_") if inside else P.c(0)
                if not (isinstance(v, P) and s2.zero(v - w)):
                    bad = "returns %s where it should return %s of dimension %s" % (v, w, "dim" if inside else "past the rank")
        if bad:
            res.bad(key, EV, root.line, "evaluating the %s field of a variable %s" % (fld, bad))
        else:
            res.ok("evaluating the %s field of a variable (%d paths)" % (fld, len(outs)))


def intrinsics(res, prog, en, root):
    I = lambda n: en["slinky::intrinsic::" + n]
    base = {ROOT: en["slinky::expr_node_type::call"]}

    def go(name, s=None):
        E = EvalExpr(prog, dict(base, **{}) | {ROOT + ("intrinsic",): I(name)})
        s = s or E.state()
        return E, s
    # abs
    E, s = go("abs")
    M = Meaning(prog)
    try:
        outs = E.run(root, [("node", ROOT)], s, ("self",))
        arg = "val:op.args.[](0)"
        bad = None if outs else "never returns a value"
        for s2, v in outs:
            r = same(M, s2, v, call("abs", atom(arg)))
            if r:
                bad = show(*r)
        if bad:
            res.bad("eval:abs", EV, root.line, "evaluating abs " + bad)
        else:
            res.ok("evaluating abs (%d paths)" % len(outs))
    except GAPS as x:
        res.note("eval:abs: %s" % x)
    for name in ("and_then", "or_else"):
        E, s = go(name)
        key = "eval:" + name
        try:
            outs = E.run(root, [("node", ROOT)], s, ("self",))
        except GAPS as x:
            res.note("%s: %s" % (key, x))
            continue
        stop = name == "or_else"      # the truth that ends the evaluation
        bad = None
        if len(E.loops) != 1 or not outs:
            res.note("%s: not a single loop over the operands" % key)
            continue
        lp = E.loops[0]
        it = [a for a in lp["atoms"].values() if a]
        if len(it) != 1 or set(lp["step"].values()) != {1} or [x.const() for x in lp["init"].values()] != [0]:
            res.note("%s: the operands are not visited from the first to the last" % key)
            continue
        n0 = len(lp["start"].sub)
        elem = lambda e: E.fixed(e, P.a("val:op.args.[](%s)" % it[0]), n0)
        left = 0
        for e in lp["ends"]:
            v = elem(e)
            if not (e.zero(v) if stop else e.nonzero(v)):
                bad = "goes on to the next operand though the result is already known"
        for s2, v in outs:
            ev = s2.env.get("!evald", ())
            v = P.c(int(v)) if isinstance(v, bool) else v
            if ev:       # left in the middle of the loop
                left += 1
                x = elem(s2)
                if not (s2.nonzero(x) if stop else s2.zero(x)):
                    bad = "stops at an operand that does not decide the result"
                if not (isinstance(v, P) and v.const() == int(stop)):
                    bad = "returns %s when an operand decides the result" % (v,)
            elif not (isinstance(v, P) and v.const() == int(not stop)):
                bad = "returns %s when no operand decides the result" % (v,)
        if not left and not bad:
            bad = "never stops early"
        if bad:
            res.bad(key, EV, root.line, "evaluating %s %s" % (name, bad))
        else:
            res.ok("evaluating %s: stops at the first operand that decides it, %d after" % (name, int(not stop)))
    # buffer_at: one step per index
    buffer_at(res, prog, go, root)
    # an undefined first operand takes the second's value
    if "slinky::intrinsic::define_undef" in en:
        pass


def buffer_at(res, prog, go, root):
    E, s = go("buffer_at")
    key = "eval:buffer_at"
    try:
        outs = E.run(root, [("node", ROOT)], s, ("self",))
    except GAPS as x:
        res.note("%s: %s" % (key, x))
        return
    if not E.loops:
        res.note(key + ": no loop over the indices")
        return
    bad = None
    n = 0
    for lp in E.loops:
        b = buffer_at_step(res, E, lp, key)
        if b == "?":
            return
        bad = bad or b
        n += len(lp["ends"])
    if bad:
        res.bad(key, EV, root.line, "evaluating buffer_at " + bad)
    else:
        res.ok("evaluating buffer_at: %d ways one index moves the address" % n)


def buffer_at_step(res, E, lp, key):
    st = lp["start"]
    ctr = [kp for kp in lp["step"]]
    acc = [kp for kp, a in lp["atoms"].items() if a and kp not in lp["step"]]
    if len(ctr) != 1 or len(acc) != 1 or lp["step"][ctr[0]] != 1:
        res.note(key + ": unrecognised loop")
        return "?"
    d, r = P.a(lp["atoms"][ctr[0]]), P.a(lp["atoms"][acc[0]])
    n0 = len(st.sub)
    bad = None
    if lp["init"][ctr[0]].const() != 0 or lp["init"][acc[0]] != P.a("base"):
        bad = "does not start from the base and the first dimension"
    for e in lp["ends"]:
        fx = lambda p: E.fixed(e, p, n0)
        dd = fx(d)
        new = e.env[acc[0][0]]
        for f in acc[0][1]:
            new = new[1][f]
        new = P.c(0) if new is None else new
        old = fx(r)
        path = ROOT + ("args", ("i", dd + P.c(1)))
        defd = e.env.get(("def", path))
        if defd is None:
            defd = next((v for k, v in e.env.items() if isinstance(k, tuple) and k and k[0] == "def"), None)
        if defd is False:
            if not e.zero(new - old):
                bad = "moves the address for an index that is not given"
            continue
        at = fx(P.a("val:op.args.[](%r)" % (d + P.c(1))))
        mn, mx, stv, ff = (fx(E.content(e, "bufdims", d, f)) for f in ("min_", "max_", "stride_", "fold_factor_"))
        inside = e.zero(stv) or (e.implies(at - mn) and e.implies(mx - at))
        outside = e.implies(mn - at - P.c(1)) or e.implies(at - mx - P.c(1))
        if e.zero(old):
            if not e.zero(new):
                bad = "gives an address though the buffer has none"
        elif e.zero(new) and new.const() == 0:
            if not outside:
                bad = "gives no address for an index that is in bounds"
        else:
            if not inside:
                bad = "gives an address for an index that is out of bounds"
            flat = (at - mn) * stv
            fold = E.mk("emod", at, ff) * stv
            unf = e.zero(ff + P.c(1)) or e.zero(stv)
            if not e.zero(new - old - (flat if unf else fold)):
                bad = "moves the address by %s" % (new - old)
    return bad


def lets(res, prog, en, root):
    E = EvalExpr(prog, {ROOT: en["slinky::expr_node_type::let"]})
    key = "eval:let"
    try:
        outs = E.run(root, [("node", ROOT)], E.state(), ("self",))
    except GAPS as x:
        res.note("%s: %s" % (key, x))
        return
    bad = None
    for s, v in outs:
        if v != P.a("val:op.body"):
            bad = "returns something else than its body's value"
    n = 0
    for lp in E.loops:
        for e in lp["ends"]:
            g = lp["start"]
            ss = e.env.get("!set", ())[len(g.env.get("!set", ())):]
            evs = e.env.get("!evald", ())[len(g.env.get("!evald", ())):]
            if not evs:
                continue      # not the loop that defines the symbols
            n += 1
            it = [P.a(a) for kp, a in lp["atoms"].items() if a and lp["step"].get(kp) == 1]
            ok = len(ss) == 1 and len(evs) == 1 and any(
                ss[0][0] == ("node", ROOT + ("lets", ("i", i), "first")) and evs[0] == ROOT + ("lets", ("i", i), "second")
                and ss[0][1] == E.nodeval(e, evs[0], "val") for i in it)
            if not ok:
                bad = "does not define each symbol as the value it is paired with, in order"
            if [lp["init"][kp].const() for kp in lp["atoms"] if kp in lp["step"]] != [0]:
                bad = "does not define the symbols from the first to the last"
    if not n and not bad:
        res.note(key + ": the loop that defines the symbols was not recognised")
    elif bad:
        res.bad(key, EV, root.line, "evaluating let " + bad)
    else:
        res.ok("evaluating let defines each symbol in order, then evaluates its body")


X, A, B = atom("x"), atom("a"), atom("b")


def expected():
    w = {}
    E2 = ("slinky::expr", "slinky::expr")
    for t, op in {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "==": "equal", "!=": "not_equal", "<": "less",
                  "<=": "less_equal", "&&": "logical_and", "||": "logical_or"}.items():
        w["slinky::operator" + t, E2] = bin_(op, A, B)
    w["slinky::operator>", E2] = bin_("less", B, A)
    w["slinky::operator>=", E2] = bin_("less_equal", B, A)
    for n, op in {"euclidean_div": "div", "euclidean_mod": "mod", "min": "min", "max": "max"}.items():
        w["slinky::" + n, E2] = bin_(op, A, B)
    for op in BIN:
        w["slinky::%s::make" % op, E2] = bin_(op, A, B)
    w["slinky::operator!", E2[:1]] = node("logical_not", a=A)
    w["slinky::logical_not::make", E2[:1]] = node("logical_not", a=A)
    w["slinky::select", E2 + E2[:1]] = w["slinky::select::make", E2 + E2[:1]] = node("select", condition=A, true_value=B, false_value=X)
    w["slinky::clamp", E2 + E2[:1]] = bin_("max", bin_("min", A, X), B)
    w["slinky::abs", E2[:1]] = call("abs", A)
    w["slinky::align_down", ("slinky::expr", "const slinky::expr &")] = bin_("mul", bin_("div", A, B), B)
    w["slinky::align_up", ("slinky::expr", "const slinky::expr &")] = bin_("mul", bin_("div", bin_("sub", bin_("add", A, B), P.c(1)), B), B)
    w["slinky::and_then", E2] = call("and_then", A, B)
    w["slinky::or_else", E2] = call("or_else", A, B)
    for t, op in {"+=": "add", "-=": "sub", "*=": "mul", "/=": "div", "%=": "mod"}.items():
        w["slinky::expr::operator" + t, E2[:1]] = bin_(op, X, A)
    w["slinky::expr::operator-", ()] = bin_("sub", P.c(0), X)
    return w


def exact():
    """Builders whose result is compared place by place."""
    VI = ("slinky::var", "int")
    w = {}
    for f in ("min", "max", "stride", "fold_factor"):
        w["slinky::buffer_" + f, VI] = ("variable", dict(sym=A, field=f, dim=B))
    for f in ("rank", "elem_size"):
        w["slinky::buffer_" + f, VI[:1]] = ("variable", dict(sym=A, field=f))
    w["slinky::variable::make", ("slinky::var", "slinky::buffer_field", "int")] = ("variable", dict(sym=A, field=B, dim=X))
    w["slinky::variable::make", ("slinky::var",)] = ("variable", dict(sym=A, field="none"))
    for n in ("semaphore_init", "semaphore_signal", "semaphore_wait"):
        w["slinky::" + n, ("slinky::expr", "slinky::expr")] = ("call", dict(intrinsic=n, args=("vec", [A, B])))
    w["slinky::buffer_at", ("slinky::expr",)] = ("call", dict(intrinsic="buffer_at", args=("vec", [A])))
    w["slinky::validate_buffer", ("slinky::var",)] = ("call", dict(intrinsic="validate_buffer", args=("vec", [A])))
    return w


def find(prog, q, pts):
    r = [f for f in prog.functions if f.q == q and tuple(p["t"] for p in f.params) == pts and f.body is not None and not f.raw.get("dep")]
    return r[0] if r else None


def builders(res, prog, en):
    inames = {v: k.split("::")[-1] for k, v in en.items() if k.startswith("slinky::intrinsic::")}
    fnames = {v: k.split("::")[-1] for k, v in en.items() if k.startswith("slinky::buffer_field::")}

    def rename(t):
        if isinstance(t, tuple) and t and t[0] == "node":
            m = {k: rename(v) for k, v in t[2].items()}
            for k, tab in (("intrinsic", inames), ("field", fnames)):
                v = m.get(k)
                if isinstance(v, P) and v.const() is not None:
                    m[k] = tab.get(int(v.const()), v)
            return ("node", t[1], m)
        if isinstance(t, tuple) and t and t[0] == "vec":
            return ("vec", [rename(x) for x in t[1]])
        return t

    def built(f):
        Bd = Builder(prog)
        s = S()
        names = ["a", "b", "x"]
        s.env["thisexpr"] = atom("x")
        out = []
        for s2, v in Bd.run(f, [atom(n) for n in names[:len(f.params)]], s, ("ptr", ("loc", "thisexpr", ()))):
            out.append((s2, Bd.tree(s2, v)))
        return out
    n = 0
    for (q, pts), want in sorted(expected().items(), key=lambda x: x[0]):
        f = find(prog, q, pts)
        if f is None:
            res.note("%s(%s) not found" % (q, ", ".join(pts)))
            continue
        n += 1
        key = "build:%s(%d)" % (q.replace("slinky::", ""), len(pts))
        try:
            outs = built(f)
            bad = None if outs else "never returns"
            for s, t in outs:
                t = rename(t)
                w = want
                if q == "slinky::clamp":
                    lo, hi = s.env.get(("def", repr(B))), s.env.get(("def", repr(X)))
                    w = bin_("min", A, X) if hi in (True, None) else A
                    w = bin_("max", w, B) if lo in (True, None) else w
                M = Meaning(prog)
                for s2, v in M.sem(S(), t):
                    r = same(M, s2, v, w)
                    if r:
                        bad = "builds %s, which %s" % (tree(t), show(*r))
            if bad:
                res.bad(key, f.file, f.line, "%s %s" % (q, bad))
            else:
                res.ok("%s builds %s (%d paths)" % (q, tree(rename(outs[0][1])), len(outs)))
        except GAPS as x:
            res.note("%s: %s" % (key, x))
    res.need(n, "functions that build operators", 30)
    for (q, pts), (cls, want) in sorted(exact().items(), key=lambda x: x[0]):
        f = find(prog, q, pts)
        if f is None:
            res.note("%s(%s) not found" % (q, ", ".join(pts)))
            continue
        key = "build:%s(%d)" % (q.replace("slinky::", ""), len(pts))
        try:
            outs = built(f)
        except GAPS as x:
            res.note("%s: %s" % (key, x))
            continue
        bad = None if outs else "never returns"
        for s, t in outs:
            t = rename(t)
            if not (isinstance(t, tuple) and t[0] == "node"):
                res.note("%s: returns %r" % (key, t))
                bad = bad or ""
                continue
            if t[1] != cls:
                bad = "builds a %s" % t[1]
            for k, v in want.items():
                got = t[2].get(k)
                if isinstance(got, tuple) and got[0] == "vec":
                    got = ("vec", [x[2]["sym"] if isinstance(x, tuple) and x[0] == "node" and x[1] == "variable" else x for x in got[1]])
                if got != v:
                    bad = "builds a node whose %s is %s, not %s" % (k, tree(got), tree(v))
        if bad:
            res.bad(key, f.file, f.line, "%s %s" % (q, bad))
        elif bad is None:
            res.ok("%s builds %s" % (q, tree(rename(outs[0][1]))))


def tree(t):
    if isinstance(t, tuple) and t and t[0] == "atom":
        return t[1]
    if isinstance(t, tuple) and t and t[0] == "vec":
        return "{%s}" % ", ".join(tree(x) for x in t[1])
    if isinstance(t, tuple) and t and t[0] == "node":
        return "%s(%s)" % (t[1], ", ".join("%s=%s" % (k, tree(v)) for k, v in t[2].items()))
    return str(t)


def check(res, tier):
    prog = Program()
    en = enums(prog)
    res.rule("denotation", "on every path of evaluating a node of a kind, the returned value is the kind's operator applied to the values of its operands")
    res.rule("construction", "a function named after an operator returns a tree whose value is that operator applied to its arguments")
    evaluator(res, prog, en)
    root = [f for f in prog.functions if f.q.endswith("::evaluator::eval") and len(f.params) == 1 and f.params[0]["t"] == "const slinky::expr &"][0]
    variables(res, prog, en, root)
    intrinsics(res, prog, en, root)
    lets(res, prog, en, root)
    builders(res, prog, en)
    res.need(len(res.instances) + len(res.violations) + len(res.notes), "obligations", 50)
    res.assumptions.append("index arithmetic is over unbounded integers; euclidean_div and euclidean_mod are what C16 shows them to be")
