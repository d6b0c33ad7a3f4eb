"""What the simplifier learns from a condition follows from the condition."""
from sa.program import Program, AnalysisBroken, AnchorMissing, walk_fn
from sa.terms import Terms, Term, C, V, UNDEF, NEG, POS, Rec, Node, St, Unsupported, GAPS, cls_of
from sa import mono
from checks.C18 import entails, Jobs

LEVEL = "other"
EXPLANATION = ("The functions that record knowledge are interpreted over symbolic terms, starting from the fact each of them is told; "
               "every bound, alignment, replacement or further assumption they record must follow from it.")

CONTRACT = {"learn_from_equal": "equal", "learn_from_less": "less", "learn_from_less_equal": "less_equal"}
REL = {"equal": "==", "less": "<", "less_equal": "<=", "not_equal": "!="}


class Learn:
    def __init__(self, prog, cls, told):
        self.prog = prog
        self.cls = cls
        self.told = told
        self.claims = []       # (state, fact or (kind, term, term), node)
        self.contracts = dict(told)

    def special(self):
        d = {"add_var_info": self.var_info, "push_back": self.push, "emplace_back": self.push}
        for n in self.told:
            d[n] = self.sub
        d["is_pure"] = lambda T, n, s: [(s, True), (s.copy(), False)]
        return d

    def var_info(self, T, n, s):
        out = []
        for s2, vs in T.evs(n["args"], s):
            x = vs[0].fields["self"] if isinstance(vs[0], Node) and vs[0].fields else None
            iv = vs[1]
            if x is None or not isinstance(iv, Rec):
                raise Unsupported("what is learned")
            lo, hi = iv.f.get("min", iv.f.get(0, UNDEF)), iv.f.get("max", iv.f.get(1, UNDEF))
            if lo != UNDEF:
                self.claims.append((s2, ("<=", T.t(lo), x), n))
            if hi != UNDEF:
                self.claims.append((s2, ("<=", x, T.t(hi)), n))
            if len(vs) > 2 and isinstance(vs[2], Rec) and vs[2].f:
                m, r = [T.t(v) for v in list(vs[2].f.values())[:2]]
                if m != C(1):
                    self.claims.append((s2, ("==", Term("mod", x, m), r), n))
            out.append((s2, None))
        return out

    def push(self, T, n, s):
        if "pair" not in ((n.get("rec") or "") + (n.get("obj") or {}).get("t", "")):
            return None
        out = []
        for s2, vs in T.evs(n["args"], s):
            v = vs[0] if len(vs) == 1 else vs
            if isinstance(v, Rec):
                v = list(v.f.values())
            if not isinstance(v, (list, tuple)) or len(v) != 2:
                raise Unsupported("fact")
            self.claims.append((s2, ("==", T.t(v[0]), T.t(v[1])), n))
            out.append((s2, None))
        return out

    def sub(self, T, n, s):
        f = self.prog.callee(n["fid"]) if n.get("fid") else None
        if f is None or f.recq != self.cls:
            return None
        out = []
        for s2, vs in T.evs(n["args"], s):
            self.claims.append((s2, fact_of(f.n, [T.t(v) for v in vs], self.contracts), n))
            out.append((s2, None))
        return out


def fact_of(name, xs, contracts):
    c = contracts[name]
    if c in REL:
        return (REL[c], xs[0], xs[1])
    return ("!=" if c == "true" else "==", xs[0], C(0))


def canon(facts, base, claim):
    """The assumption and the claim with definitions inlined and the atoms renamed in order of appearance."""
    defs = {}
    for r, x, y in facts:
        if r == "==" and (r, x, y) != base and x.op == "v" and y.op not in ("v", "c") and x not in y.atoms():
            defs.setdefault(x, y)

    def sub(t, d=6):
        if t.op == "v":
            return sub(defs[t], d - 1) if t in defs and d else t
        if t.op == "c" or not t.args:
            return t
        return Term(t.op, *[sub(x, d) if isinstance(x, Term) else x for x in t.args])
    names = {}

    def show(t):
        if t.op == "v":
            return names.setdefault(t, "pqrstuvw"[len(names) % 8])
        if t.op == "c":
            return str(t.args[0])
        return "%s(%s)" % (t.op, ", ".join(show(x) for x in t.args))

    def fact(f):
        # min and max are symmetric
        return "%s %s %s" % (show(sub(f[1])), f[0], show(sub(f[2])))
    a = fact(base)
    return "%s => %s" % (a, fact(claim))


def learned(res, prog):
    fs = [f for f in prog.functions if f.recq and f.recq.endswith("::knowledge") and f.body and not f.dep]
    if not fs:
        raise AnchorMissing("class knowledge not found")
    cls = fs[0].recq
    told = {}
    for f in fs:
        pts = [p["t"].replace("const ", "").replace("&", "").strip() for p in f.params]
        if len(pts) == 2 and all(t == "slinky::expr" for t in pts) and f.n in CONTRACT:
            told[f.n] = CONTRACT[f.n]
        if pts == ["slinky::expr"] and f.rt == "void":
            if f.n.endswith("true") or f.n.endswith("false"):
                told[f.n] = "true" if f.n.endswith("true") else "false"
    n = 0
    for f in fs:
        if f.n not in told:
            continue
        L = Learn(prog, cls, told)
        xs = [V("xyz"[i]) for i in range(len(f.params))]
        base = fact_of(f.n, xs, told)
        n += 1
        T = Terms(prog, special=L.special())
        s = St(facts=[base])
        s.env["obj"] = Rec(cls, {"facts": [], "vars": Rec("map", {}), "buffers": Rec("map", {})})
        try:
            T.run(f, xs, s, this=("loc", "obj", ()))
        except GAPS as e:
            res.note("%s: not followed (%s)" % (f.n, e))
            continue
        und, seen = 0, set()
        for st, c, node in L.claims:
            key = canon(st.facts, base, c)
            if entails(st.facts, c):
                if key not in seen:
                    seen.add(key)
                    res.ok("%s: %s" % (f.n, key))
                continue
            mono.BUDGET[0] = 1500000
            cex = mono.refute(st.facts, c) if st.exact else None
            if cex is None:
                und += 1
                res.note("%s: %s not decided" % (f.n, key))
            else:
                res.bad("learn:" + key, f.file, node["l"], "%s: %s does not follow; for instance %s" %
                        (f.n, key, ", ".join("%r=%d" % y for y in sorted(cex.items(), key=repr))))
    return n


def check(res, tier):
    prog = Program()
    res.rule("learned", "each bound, alignment, replacement and further assumption recorded follows from the condition that was told")
    res.need(learned(res, prog), "functions that learn from conditions", 3)
