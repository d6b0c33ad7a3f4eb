"""C17: alignment facts (modulus and remainder) are conservative."""
from sa.program import Program, AnalysisBroken, children, walk_fn, walk, show
from sa.kernel import Kernel, S, P, Unsupported, GAPS
from sa.traps import strip

LEVEL = "other"
EXPLANATION = ("A pair {modulus m, remainder r} stands for the integers m*y + r. Each operator on such pairs is interpreted once "
               "over symbolic pairs; on every path, every value the IR operator can yield must be congruent to the returned "
               "remainder modulo the returned modulus. Congruence is decided on polynomials, with the greatest common divisor "
               "represented by writing its arguments as multiples of it. The places that trim bounds to an alignment, and that "
               "give loop variables an alignment, are interpreted the same way.")


def model(k):
    def gcd(ker, s, vs, n):
        x, y = vs
        s = s.copy()
        if not x.m:
            return [(s, y)]
        if not y.m:
            return [(s, x)]
        M = P.a(ker.fresh("M"))
        u, v = P.a(ker.fresh("u")), P.a(ker.fresh("v"))
        s.env["_keep"] = y
        mult(ker, s, x, M * u)
        mult(ker, s, s.env["_keep"], M * v)
        del s.env["_keep"]
        return [(s, M)]

    def mult(ker, s, x, val):
        ker.define(s, x, val)
        s.add(x - val, val - x)

    def lcm(ker, s, vs, n):
        x, y = vs
        s = s.copy()
        if not x.m or not y.m:
            return [(s, P.c(0))]
        L = P.a(ker.fresh("L"))
        s.env.setdefault("_lcm", ("rec", {}))
        m = dict(s.env["_lcm"][1])
        for i, a in enumerate((x, y)):
            m["%s.%d" % (list(L.m)[0][0], i)] = a
        s.env["_lcm"] = ("rec", m)
        return [(s, L)]

    def emod(ker, s, vs, n):
        a, b = vs[0], vs[1]
        dz = vs[2] if len(vs) > 2 else P.c(0)
        key = ker.fresh("arg")
        s = s.copy()
        s.env[key] = ("rec", {"a": a, "b": b, "dz": dz})
        out = []
        for s2, z in eq0(ker, s, b):
            v = s2.env[key][1]
            if z:
                out.append((s2, v["dz"]))
            else:
                c = v["b"].const()
                if c is not None and abs(c) == 1:
                    out.append((s2, P.c(0)))
                else:
                    out.append((s2, v["a"] - v["b"] * P.a(ker.fresh("k"))))
        return out

    def ediv(ker, s, vs, n):
        a, b = vs[0], vs[1]
        dz = vs[2] if len(vs) > 2 else P.c(0)
        key = ker.fresh("arg")
        s = s.copy()
        s.env[key] = ("rec", {"a": a, "b": b, "dz": dz})
        out = []
        for s2, z in eq0(ker, s, b):
            v = s2.env[key][1]
            out.append((s2, v["dz"] if z else quot(v["a"], v["b"])))
        return out
    k.special.update({"gcd": gcd, "lcm": lcm, "euclidean_mod": emod, "euclidean_div": ediv})


def eq0(ker, s, b):
    """Splits on b == 0 without ordering the non-zero case."""
    c = b.const()
    if c is not None:
        return [(s, c == 0)]
    out = []
    if not s.nonzero(b):
        z = s.copy()
        z.add(b, -b)
        ker.solve(z, b)
        if z.ok():
            out.append((z, True))
    nz = s.copy()
    nz.nz.append(b)
    out.append((nz, False))
    return out


def quot(a, b):
    """a / b: multiples of b leave the division."""
    whole, rest = P(), P()
    if len(b.m) == 1:
        (kb, vb), = b.m.items()
        for k, v in a.m.items():
            r = list(k)
            ok = bool(kb)
            for x in kb:
                if x in r:
                    r.remove(x)
                else:
                    ok = False
            if ok and (v / vb).denominator == 1:
                whole = whole + P({tuple(r): v / vb})
            else:
                rest = rest + P({k: v})
    else:
        rest = a
    if rest.m:
        whole = whole + P.a("div(%r, %r)" % (rest, b))
    return whole


class MKernel(Kernel):
    """Equality against zero keeps the non-zero case as one path; optional constants are split."""

    def split_eq(self, s, a, b):
        return eq0(self, s, a - b)

    def as_bool(self, s, v):
        if isinstance(v, tuple) and v[0] == "some":
            return [(s, True)]
        if isinstance(v, tuple) and v[0] == "none":
            return [(s, False)]
        return Kernel.as_bool(self, s, v)

    def e_this(self, n, s):
        return [(s, ("loc", "this", ()))]

    def e_un(self, n, s):
        if n["op"] == "*":
            out = []
            for s2, v in self.ev(n["e"], s):
                x = self.load(s2, v)
                if isinstance(x, tuple) and x[0] == "some":
                    out.append((s2, x[1]))
                elif isinstance(x, tuple) and x[0] == "none":
                    continue
                else:
                    out.append((s2, v))
            return out
        return Kernel.e_un(self, n, s)

    def e_call(self, n, s):
        last = (n.get("fn") or "").split("::")[-1].split("<")[0]
        op = n.get("op")
        if op == "*" and len(n["args"]) == 1:
            out = []
            for s2, v in self.ev(n["args"][0], s):
                x = self.load(s2, v)
                if isinstance(x, tuple) and x[0] == "some":
                    out.append((s2, x[1]))
            return out
        if op == "=" and len(n["args"]) == 2:
            out = []
            for s2, r in self.ev(n["args"][1], s):
                for s3, l in self.ev(n["args"][0], s2):
                    self.store(s3, l, self.load(s3, r))
                    out.append((s3, l))
            return out
        if last == "as_constant" and len(n["args"]) == 1:
            out = []
            for s2, v in self.ev(n["args"][0], s):
                x = self.load(s2, v)
                out += self.known(s2, x)
            return out
        if last in ("operator bool", "has_value") and n.get("obj"):
            out = []
            for s2, v in self.ev(n["obj"], s):
                out += self.as_bool(s2, self.load(s2, v))
            return out
        return Kernel.e_call(self, n, s)

    def known(self, s, x):
        if isinstance(x, tuple) and x[0] == "expr":
            a, b = s.copy(), s.copy()
            a.env["known:" + x[1]] = ("some", P.a(x[1]))
            return [(a, ("some", P.a(x[1]))), (b, ("none",))]
        if isinstance(x, P):
            return [(s, ("some", x))]
        raise Unsupported("as_constant")


def divisible(s, M, p):
    """p is a multiple of M on every valuation of this path."""
    if not p.m:
        return True
    c = M.const()
    if c is not None:
        if c == 0:
            return False
        return all(v.denominator == 1 and v.numerator % abs(c) == 0 for v in p.m.values())
    if len(M.m) == 1:
        (k, v), = M.m.items()
        if abs(v) != 1:
            return False
        for kk in p.m:
            r = list(kk)
            for x in k:
                if x in r:
                    r.remove(x)
                else:
                    return False
        return True
    return p == M or p == -M


def fixed(s, p):
    for a, v in s.sub:
        if a in p.atoms():
            p = p.subst(a, v)
    return p


def values(op, s, f):
    """What the IR operator can yield for members of the operands, on this path."""
    x1 = f("m1") * P.a("y") + f("r1")
    x2 = f("m2") * P.a("z") + f("r2")
    if op == "+":
        return [("the sum", x1 + x2)]
    if op == "-":
        return [("the difference", x1 - x2)]
    if op == "*":
        return [("the product", x1 * x2)]
    if op == "|":
        return [("a value of the first operand", x1), ("a value of the second operand", x2)]
    if op == "%":
        if not f("m2").m and not f("r2").m:
            return [("the result of mod by zero", P())]
        out = [("the remainder of the division", x1 - x2 * P.a("j"))]
        if not f("r2").m:
            out.append(("the result of mod by zero", P()))
        return out
    if op == "/":
        if not f("m2").m and s.nonzero(f("r2")):
            return [("the quotient", quot(x1, f("r2")))]
        return [("the quotient", P.a("anything"))]
    return None


def operators(res, prog):
    n = 0
    for op in ("+", "-", "*", "/", "%", "|", "&"):
        fs = [f for f in prog.fn("slinky::operator" + op, 2, dep=True) if f.body
              and all("modulus_remainder" in p["t"] for p in f.params)]
        if not fs:
            res.note("operator%s on alignments not found" % op)
            continue
        fs.sort(key=lambda f: f.dep)
        f = fs[0]
        n += 1
        k = MKernel(prog)
        model(k)

        def recursive(ker, s, vs, nn, k=k):
            raise Unsupported("recursion")
        s = S()
        a = ("rec", {"modulus": P.a("m1"), "remainder": P.a("r1")})
        b = ("rec", {"modulus": P.a("m2"), "remainder": P.a("r2")})
        try:
            paths = run_op(k, f, op, a, b, s)
        except GAPS as e:
            res.note("operator%s: %s not followed" % (op, e))
            continue
        bad = None
        cnt = 0
        for st, v in paths:
            if not st.ok():
                continue
            if not isinstance(v, tuple) or v[0] != "rec":
                bad = bad or "?"
                continue
            cnt += 1
            M, R = v[1]["modulus"], v[1]["remainder"]
            if M.const() == 1:
                continue
            g = lambda t, st=st: fixed(st, P.a(t))
            if op == "&":
                same = any(not (M - g("m" + i)).m and not (R - g("r" + i)).m for i in "12")
                lc = st.env.get("_lcm", ("rec", {}))[1]
                at = list(M.m)[0][0] if len(M.m) == 1 and list(M.m)[0] else ""
                both = at + ".0" in lc and {lc[at + ".0"].key(), lc[at + ".1"].key()} == {g("m1").key(), g("m2").key()}
                if not same and not (both and not R.m and not g("r1").m and not g("r2").m):
                    bad = "the result {%r, %r} is neither operand nor the common multiples of both" % (M, R)
                continue
            for what, x in values(op, st, g):
                if not divisible(st, M, x - R):
                    bad = "%s, %r, need not be %r modulo %r" % (what, x, R, M)
        if bad == "?":
            res.note("operator%s: result not followed" % op)
        elif bad:
            res.bad("mod:operator%s" % op, f.file, f.line, "the alignment of a result of '%s' is wrong on some path: %s" % (op, bad))
        else:
            res.ok("operator%s: every value is congruent to the returned remainder (%d paths)" % (op, cnt))
    return n


def run_op(k, f, op, a, b, s):
    """A self call with exchanged operands (operator| orders its operands) is covered by symmetry."""
    def swap(node):
        args = node["args"]
        return len(args) == 2 and all(strip(x)["k"] == "ref" for x in args) \
            and [strip(x)["d"] for x in args] == [p["d"] for p in reversed(f.params)]
    orig = MKernel.e_call

    def e_call(self, n, st):
        if n.get("fid") == f.fid or (n.get("op") == op and n.get("fn", "").endswith("operator" + op)):
            if swap(n) and op in ("+", "*", "|", "&"):
                return []
        if f.dep and n.get("op") == op and swap(n):
            return []
        return orig(self, n, st)

    class K2(MKernel):
        pass
    K2.e_call = e_call
    k.__class__ = K2
    e_bin = MKernel.e_bin

    def bin2(self, n, st):
        if n["op"] == op and all(strip(x)["k"] == "ref" for x in (n["L"], n["R"])) \
                and [strip(n["L"])["d"], strip(n["R"])["d"]] == [p["d"] for p in reversed(f.params)]:
            return []
        return e_bin(self, n, st)
    K2.e_bin = bin2
    return k.run(f, [a, b], s)


def trim(res, prog):
    """Functions of the simplifier that trim bounds to an alignment: nothing that is aligned and in bounds is cut off."""
    n = 0
    for f in prog.functions:
        if f.dep or not f.body or f.params or not f.recq or f.static:
            continue
        flds = {x["n"] for _, x in prog.all_fields(f.recq)}
        if not {"bounds", "alignment"} <= flds:
            continue
        uses = {x["n"] for x in walk_fn(f) if x["k"] == "mem"}
        if not {"modulus", "remainder", "min", "max"} <= uses:
            continue
        n += 1
        k = MKernel(prog)
        model(k)
        s = S()
        m, r = P.a("m"), P.a("r")
        s.env["this"] = ("rec", {"alignment": ("rec", {"modulus": m, "remainder": r}),
                                 "bounds": ("rec", {"min": ("expr", "bmin"), "max": ("expr", "bmax")})})
        orig = k.special

        def emod(ker, st, vs, node):
            out = []
            for s2, v in orig0(ker, st, vs, node):
                # 0 <= a mod b < b for a positive modulus
                if s2.implies(vs_fix(s2, vs[1]) - P.c(1)):
                    s2.add(v, vs_fix(s2, vs[1]) - v - P.c(1))
                out.append((s2, v))
            return out
        orig0 = k.special["euclidean_mod"]
        k.special = dict(k.special, euclidean_mod=emod)
        k.special["point"] = lambda ker, st, vs, node: [(st, ("rec", {"min": vs[0], "max": vs[0]}))]
        k.special["as_point"] = None
        k.special.pop("as_point")
        stmts = [c for c in f.body["c"]]
        live = [s]
        try:
            done = []
            live = [s]
            for c in stmts:
                if any(x["k"] == "call" and (x.get("fn") or "").endswith("as_point") for x in walk(c)):
                    continue        # learns a constant from equal bounds; no bound is changed
                live = k.stmt(c, live, done)
            paths = live + done
        except GAPS as e:
            res.note("%s: %s not followed" % (f.q, e))
            continue
        bad = None
        for st in paths:
            if not st.ok():
                continue
            th = st.env["this"][1]
            al, bo = th["alignment"][1], th["bounds"][1]
            M, R = fixed(st, m), fixed(st, r)
            if not M.m:
                for side in ("min", "max"):
                    v = bo[side]
                    if isinstance(v, P) and (v - R).m:
                        bad = "the bounds of a constant are not the constant"
                continue
            for side, e in (("min", "bmin"), ("max", "bmax")):
                v = bo[side]
                if not isinstance(v, P):
                    continue
                b = fixed(st, P.a(e))
                d = (v - b) if side == "min" else (b - v)
                if not d.m:
                    continue
                if not divisible(st, M, v - R):
                    bad = "the new %s, %r, is not aligned" % (side, v)
                elif not st.implies(M - P.c(1) - d):
                    bad = "the new %s may be a whole period beyond the old one, which excludes aligned values" % side
                elif not st.implies(d):
                    res.note("%s: the new %s may be looser than the old one" % (f.n, side))
        if bad:
            res.bad("trim:%s" % f.n, f.file, f.line, "%s cuts off values that are within the bounds and aligned: %s" % (f.n, bad))
        else:
            res.ok("%s keeps every aligned value within the bounds (%d paths)" % (f.q.replace("slinky::", ""), len(paths)))
    return n


def vs_fix(s, p):
    return fixed(s, p)


def loops(res, prog):
    """Alignments given to loop variables: min + k*step must be congruent to the remainder modulo the modulus."""
    n = 0
    for f in prog.functions:
        if f.dep or not f.body or len(f.params) != 1 or f.params[0]["t"] != "const slinky::loop *":
            continue
        # calls that bind the loop variable together with an alignment
        for site, al in bindings(f):
            n += 1
            key = "loop-alignment:%s" % f.q
            k = MKernel(prog)
            model(k)
            try:
                lp = LoopK(prog, f)
                lp.special = k.special
                need, todo = set(), lp.refs(al)
                order = [c for c in flat(f.body)]
                chosen = []
                while todo:
                    d = todo.pop()
                    if d in need:
                        continue
                    need.add(d)
                    for c in order:
                        if c in chosen:
                            continue
                        if d in defs(c):
                            chosen.append(c)
                            todo |= lp.refs(c)
                sts = [S()]
                done = []
                for c in order:
                    if c in chosen and not c.get("_site"):
                        if before(c, site):
                            sts = lp.stmt(c, sts, done)
                out = []
                for st in sts:
                    out += lp.ev(al, st)
                for st, v in out:
                    v = lp.load(st, v)
                    if not isinstance(v, tuple) or v[0] != "rec":
                        raise Unsupported("alignment value")
                    M, R = v[1]["modulus"], v[1]["remainder"]
                    if M.const() == 1:
                        continue
                    x = fixed(st, P.a("MIN_") + P.a("k_") * P.a("STEP_"))
                    if "min_m" in st.env:
                        pass
                    if not divisible(st, M, x - R):
                        res.bad(key, f.file, site["l"], "the loop variable takes the values min + k*step, which need not be %r "
                                "modulo %r: the bounds that are not constant are not accounted for" % (R, M)
                                if True else "")
                        break
                else:
                    res.ok("%s: the alignment of the loop variable holds for min + k*step" % f.q.replace("slinky::", ""))
            except GAPS as e:
                res.note("%s: alignment of the loop variable not followed (%s)" % (f.q, e))
    return n


class LoopK(MKernel):
    """Values named like the fields of the loop node stand for the loop's minimum and step."""

    def __init__(self, prog, f):
        MKernel.__init__(self, prog)
        self.f = f

    def refs(self, n):
        """The variables n reads, other than those that stand for a field of the loop."""
        if n is None:
            return set()
        if n["k"] in ("ref", "mem", "call", "ctor", "ilist") and self.role(n):
            return set()
        out = {n["d"]} if n["k"] == "ref" and n.get("dk") == "var" and "d" in n else set()
        for x in children(n):
            out |= self.refs(x)
        return out

    def role(self, n):
        n = strip(n)
        if n["k"] in ("ctor", "ilist") and len(n.get("args", n.get("c", []))) == 1:
            return self.role((n.get("args") or n.get("c"))[0])
        if n["k"] == "call" and (n.get("fn") or "").split("::")[-1] in ("move", "forward", "mutate"):
            return self.role(n["args"][0]) if n["args"] else None
        if n["k"] == "mem":
            if n["n"] == "step":
                return "STEP_"
            if n["n"] in ("min", "max"):
                b = self.role(n["b"])
                if b == "BOUNDS":
                    return "MIN_" if n["n"] == "min" else "MAX_"
            if n["n"] == "bounds":
                return "BOUNDS"
        if n["k"] == "ref":
            for x in walk_fn(self.f):
                if x["k"] == "decl":
                    for v in x["v"]:
                        if v["d"] == n["d"] and v.get("init") is not None:
                            return self.role(v["init"])
        return None

    def e_call(self, n, s):
        last = (n.get("fn") or "").split("::")[-1].split("<")[0]
        if last in ("as_constant", "evaluate_constant") and len(n["args"]) == 1:
            r = self.role(n["args"][0])
            if r is None:
                raise Unsupported("as_constant of something else")
            if "known:" + r in s.env:
                return [(s, s.env["known:" + r])]
            a, b = s.copy(), s.copy()
            a.env["known:" + r] = ("some", P.a(r))
            b.env["known:" + r] = ("none",)
            return [(a, ("some", P.a(r))), (b, ("none",))]
        return MKernel.e_call(self, n, s)


def flat(b):
    for c in b["c"]:
        if c["k"] == "block":
            yield from flat(c)
        else:
            yield c


def refs(n):
    return {x["d"] for x in walk(n) if x["k"] == "ref" and x.get("dk") in ("var",) and "d" in x}


def defs(c):
    out = set()
    for x in walk(c):
        if x["k"] == "decl":
            if x is c:
                out |= {v["d"] for v in x["v"]}
        elif x["k"] == "bin" and x["op"] == "=":
            out |= base(x["L"])
        elif x["k"] == "call" and x.get("op") == "=":
            out |= base(x["args"][0])
    return out


def base(l):
    l = strip(l)
    while l["k"] == "mem":
        l = strip(l["b"])
    return {l["d"]} if l["k"] == "ref" and "d" in l else set()


def before(c, site):
    return c["l"] <= site["l"] and site["id"] not in {x["id"] for x in walk(c)}


def bindings(f):
    for x in walk_fn(f):
        if x["k"] not in ("call", "ctor"):
            continue
        args = x["args"]
        hassym = any(strip(a)["k"] == "mem" and strip(a)["n"] == "sym" or
                     any(y["k"] == "mem" and y["n"] == "sym" for y in walk(a)) for a in args)
        if not hassym:
            continue
        for a in args:
            for y in walk(a, into_lambdas=False):
                t = y.get("t") or ""
                if "modulus_remainder" in t and y["k"] in ("ref", "ctor", "ilist") and "map" not in t:
                    if y["k"] == "ctor" and len(y["args"]) == 0:
                        break
                    yield x, y
                    break


def check(res, tier):
    prog = Program()
    res.rule("operators", "every value an operator yields on members of its operands is congruent to the returned remainder modulo the returned modulus")
    res.rule("trim", "trimming bounds to an alignment moves a bound by less than a period, onto an aligned value")
    res.rule("loop-alignment", "the alignment bound to a loop variable holds for min + k*step")
    n = operators(res, prog)
    res.need(n, "operators on alignments", 5)
    m = trim(res, prog)
    res.count("trimming functions", m)
    l = loops(res, prog)
    res.count("loop alignments", l)
    res.assumptions += ["remainders are normalised to [0, modulus) except for constants", "the gcd of alignments is a common divisor (C16)"]
