"""C16: integer helpers compute what they promise; divisions are Euclidean and never trap."""
from sa.program import Program, AnalysisBroken, walk_fn, show
from sa.kernel import Kernel, S, P, MIN, MAX, Unsupported, GAPS
from sa import traps

LEVEL = "other"
EXPLANATION = ("Every integer helper of base/arithmetic.h is interpreted over all its inputs at once, in a domain of convex "
               "polyhedra partitioned by path, and the value it returns on each path is compared with what it promises. Every "
               "integer division and remainder of the library is then enumerated and must be safe from trapping.")

ONE = P.c(1)


def euclid(s, A, B, R):
    """A == R*B + rem with 0 <= rem < |B|, on path s."""
    rem = A - R * B
    if not s.implies(rem):
        return "the remainder may be negative"
    if s.ok(B - ONE) and S(s.env, s.cons).add(B - ONE).ok(rem - B):
        return "the remainder may reach the divisor"
    if s.ok(-B - ONE) and S(s.env, s.cons).add(-B - ONE).ok(rem + B):
        return "the remainder may reach the divisor's magnitude"
    return None


def spec_div(s, v, f, dz=P.c(0)):
    A, B = f("a"), f("b")
    if s.ok(B, -B):
        if not s.zero(B):
            return "division by zero is not told apart"
        return None if s.zero(v - f("dz")) else "division by zero does not yield the defined value"
    if s.ok(B + ONE, -B - ONE, P.c(MIN) - A) and s.zero(B + ONE) and s.zero(A - P.c(MIN)):
        return None if s.zero(v - P.c(MAX)) or s.zero(v - P.c(MIN)) else "MIN / -1 is neither saturated nor wrapped"
    return euclid(s, A, B, v)


def multiple(s, p, b):
    """p is an integer multiple of b on this path."""
    if not p.m or s.zero(p):
        return True
    for c in range(-2, 3):
        if s.zero(p - b * P.c(c)):
            return True
    # p as b times a polynomial
    return divides(b, p)


def divides(b, p):
    if len(b.m) != 1:
        return False
    (k, v), = b.m.items()
    if abs(v) != 1:
        return False
    for kk in p.m:
        rest = list(kk)
        for x in k:
            if x in rest:
                rest.remove(x)
            else:
                return False
    return True


def spec_mod(s, v, f):
    A, B = f("a"), f("b")
    if s.ok(B, -B):
        if not s.zero(B):
            return "a zero divisor is not told apart"
        return None if s.zero(v - f("dz")) else "mod by zero does not yield the defined value"
    if not s.implies(v):
        return "the result may be negative"
    if s.ok(B - ONE) and S(s.env, s.cons).add(B - ONE).ok(v - B):
        return "the result may reach the divisor"
    if s.ok(-B - ONE) and S(s.env, s.cons).add(-B - ONE).ok(v + B):
        return "the result may reach the divisor's magnitude"
    if s.zero(B - ONE) or s.zero(B + ONE):
        return None
    return None if multiple(s, A - v, B) else "the result does not differ from the dividend by a multiple of the divisor"


def spec_floor(s, v, f):
    return euclid(s, f("a"), f("b"), v)


def spec_ceil(s, v, f):
    A, B = f("a"), f("b")
    d = v * B - A
    if not s.implies(d):
        return "the result may be below the quotient"
    return None if s.implies(B - ONE - d) else "the result may be more than one above the quotient"


def spec_round(s, v, f):
    A, B = f("a"), f("b")
    d = (A - v * B) * P.c(2)
    return None if s.implies(B - d) and s.implies(B + d) else "the result is not the nearest integer"


def spec_up(s, v, f):
    A, B = f("a"), f("b")
    if not s.implies(v - A) or not s.implies(B - ONE - (v - A)):
        return "the result is not within one step above the argument"
    return None if divides(B, v) or s.zero(v) else "the result is not a multiple of the alignment"


def spec_down(s, v, f):
    A, B = f("a"), f("b")
    if not s.implies(A - v) or not s.implies(B - ONE - (A - v)):
        return "the result is not within one step below the argument"
    return None if divides(B, v) or s.zero(v) else "the result is not a multiple of the alignment"


def sat(op):
    def spec(s, v, f):
        x = op(f("a"), f("b"))
        if s.ok(x - P.c(MAX) - ONE):
            if s.ok(P.c(MAX) - x):
                return "overflow is not told apart"
            return None if s.zero(v - P.c(MAX)) else "positive overflow does not saturate to the maximum"
        if s.ok(P.c(MIN) - x - ONE):
            if s.ok(x - P.c(MIN)):
                return "overflow is not told apart"
            return None if s.zero(v - P.c(MIN)) else "negative overflow does not saturate to the minimum"
        return None if s.zero(v - x) else "the result is not exact although it is representable"
    return spec


def spec_divsat(s, v, f):
    A, B = f("a"), f("b")
    if s.zero(B + ONE) and s.zero(A - P.c(MIN)):
        return None if s.zero(v - P.c(MAX)) else "MIN / -1 does not saturate"
    return spec_div(s, v, lambda n: P.c(0) if n == "dz" else f(n))


def out_of_range(op, withres):
    def spec(s, v, f):
        x = op(f("a"), f("b"))
        if not isinstance(v, bool):
            return "undecided"
        over = s.ok(x - P.c(MAX) - ONE) or s.ok(P.c(MIN) - x - ONE)
        if over != v:
            return "overflow is reported %s the result does not fit" % ("although" if False else "not exactly when")
        if withres:
            r = s.env["RES"]
            if v:
                return None if isinstance(r, P) and s.zero(r) else "the result of an overflowing operation is not zero"
            return None if isinstance(r, P) and s.zero(r - x) else "the result is not exact although it is representable"
        return None
    return spec


def spec_sign(s, v, f):
    A = f("a")
    if s.ok(A - ONE) and not s.zero(v - ONE):
        return "the sign of a positive number is not 1"
    if s.ok(-A - ONE) and not s.zero(v + ONE):
        return "the sign of a negative number is not -1"
    if s.ok(A, -A) and not s.zero(v):
        return "the sign of zero is not 0"
    return None


def spec_stair(s, v, f):
    # ((x + a)/b)*c with Euclidean division; undefined division yields 0
    X, A, B, C = f("x"), f("a"), f("b"), f("c")
    if s.zero(B):
        return None if s.zero(v) else "division by zero does not yield 0"
    if s.zero(B + ONE) and s.zero(X + A - P.c(MIN)):
        return None
    q = {}
    for k, c in v.m.items():
        k = list(k)
        if "c" not in k:
            return "the result is not a multiple of the step"
        k.remove("c")
        q[tuple(k)] = c
    return euclid(s, X + A, B, P(q))


def spec_pow2(s, v, f):
    A = f("a")
    low = f("low(%r)" % A)
    if not isinstance(v, bool):
        return "undecided"
    if s.ok(-A):
        if s.ok(A - ONE):
            # The path does not tell positive from other numbers; either answer is wrong for some of them.
            return "numbers that are not positive are called powers of two" if v else None if not s.zero(low) else "undecided"
        return "a number that is not positive is called a power of two" if v else None
    if s.zero(low):
        return None if v else "a power of two is not recognised"
    if s.nonzero(low):
        return "a number with more than one bit is called a power of two" if v else None
    return "undecided"


def spec_lcm(s, v, f):
    # a = g*x, b = g*y with the greatest common divisor g
    return None if s.zero(v - P.a("g") * P.a("x") * P.a("y")) else "the result is not |a*b| divided by the greatest common divisor"


ADD, SUB, MUL = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: a * b)
# name: (parameters, preconditions, what it promises, specification)
POS = [lambda f: f("b") - ONE]
SPECS = {
    "euclidean_div": (["a", "b", "dz"], [], "0 <= a - result*b < |b|, or the given value if b is 0", spec_div),
    "euclidean_mod": (["a", "b", "dz"], [], "0 <= result < |b| and result = a modulo b, or the given value if b is 0", spec_mod),
    "euclidean_div_positive_divisor": (["a", "b"], POS, "0 <= a - result*b < b", spec_floor),
    "euclidean_mod_positive_modulus": (["a", "b"], POS, "0 <= result < b and result = a modulo b", spec_mod),
    "floor_div": (["a", "b"], POS, "the quotient rounded down", spec_floor),
    "ceil_div": (["a", "b"], POS, "the quotient rounded up", spec_ceil),
    "round_div": (["a", "b"], POS, "the quotient rounded to nearest", spec_round),
    "align_up": (["a", "b"], POS, "the next multiple", spec_up),
    "align_down": (["a", "b"], POS, "the previous multiple", spec_down),
    "add_sat": (["a", "b"], [], "the sum, saturated", sat(ADD)),
    "sub_sat": (["a", "b"], [], "the difference, saturated", sat(SUB)),
    "mul_sat": (["a", "b"], [], "the product, saturated", sat(MUL)),
    "div_sat": (["a", "b"], [], "the Euclidean quotient, saturated", spec_divsat),
    "add_overflows": (["a", "b"], [], "true exactly when the sum is not representable", out_of_range(ADD, False)),
    "sub_overflows": (["a", "b"], [], "true exactly when the difference is not representable", out_of_range(SUB, False)),
    "mul_overflows": (["a", "b"], [], "true exactly when the product is not representable", out_of_range(MUL, False)),
    "add_with_overflow": (["a", "b", "RES"], [], "the sum, or true and zero when it is not representable", out_of_range(ADD, True)),
    "sub_with_overflow": (["a", "b", "RES"], [], "the difference, or true and zero when it is not representable", out_of_range(SUB, True)),
    "mul_with_overflow": (["a", "b", "RES"], [], "the product, or true and zero when it is not representable", out_of_range(MUL, True)),
    "sign": (["a"], [], "-1, 0 or 1", spec_sign),
    "is_power_of_two": (["a"], [], "true exactly for 1, 2, 4, ...", spec_pow2),
    "lcm": (["a", "b"], [lambda f: f("a") - ONE, lambda f: f("b") - ONE], "the least common multiple of positive numbers", spec_lcm),
    "staircase": (["x", "a", "b", "c"], [], "((x + a)/b)*c", spec_stair),
}


def kernels(res, prog):
    traps_seen = {}
    n = 0
    for name, (ps, pre, text, spec) in SPECS.items():
        fs = [f for f in prog.fn("slinky::" + name, dep=True) if f.body and f.file.startswith("slinky/base/")
              and len(f.params) in (len(ps), len(ps) - (1 if "dz" in ps else 0))]
        if not fs:
            res.note("%s: not found" % name)
            continue
        fs.sort(key=lambda f: f.dep)
        f = fs[0]
        n += 1
        k = Kernel(prog, {"gcd": lambda K, s, vs, n: [(s, P.a("g"))]} if name == "lcm" else None)
        s = S()
        args = []
        for p in ps:
            if p == "RES":
                s.env["RES"] = P.a("RES0")
                args.append(("loc", "RES", ()))
            else:
                args.append(P.a(p))
                s.add(P.a(p) - P.c(MIN), P.c(MAX) - P.a(p))
        for c in pre:
            s.add(c(P.a))
        if name == "lcm":
            for a, b in (("a", "x"), ("b", "y")):
                args[ps.index(a)] = P.a("g") * P.a(b)
                s.add(P.a(b) - ONE)
            s.add(P.a("g") - ONE)
            s.nz.append(P.a("g"))
        key = "%s:spec" % name
        try:
            paths = k.run(f, args, s)
        except GAPS as e:
            res.note("%s: %s not followed" % (name, e))
            continue
        if name != "staircase" and name != "round_div" and name != "ceil_div" and not name.startswith("align"):
            for node, msg in k.traps:
                traps_seen.setdefault((f.file, node["l"]), (f, node, msg))
        bad = None
        cnt = 0
        for st, v in paths:
            if not st.ok():
                continue
            cnt += 1
            if isinstance(v, bool) and spec.__name__ not in ("spec", "spec_pow2"):
                v = P.c(int(v))
            r = spec(st, v, lambda a, st=st: st_fix(st, a))
            if r == "undecided":
                res.note("%s: %s" % (name, r))
            elif r:
                bad = (r, st, v)
                break
        if not bad and k.wraps and ("_sat" in name or "overflow" in name):
            res.bad(name + ":wrap", f.file, k.wraps[0]["l"], "%s promises %s for all arguments, but this sum overflows for some" % (name, text))
        elif not cnt:
            res.note("%s: no path followed" % name)
        elif bad:
            r, st, v = bad
            res.bad(key, f.file, f.line, "%s promises %s, but %s on a path returning %r" % (name, text, r, v),
                    ["where " + "; ".join("%r >= 0" % c for c in st.cons if not big(c))[:600]])
        else:
            res.ok("%s: %s (%d paths)" % (name, text, cnt))
    for f, node, msg in traps_seen.values():
        res.bad("%s:trap" % f.n, f.file, node["l"], "%s can trap: %s" % (f.n, msg))
    return n


def big(p):
    return abs(p.m.get((), 0)) > 1 << 60


def st_fix(st, a):
    p = P.a(a)
    for x, v in st.sub:
        if x in p.atoms():
            p = p.subst(x, v)
    return p


def check(res, tier):
    prog = Program()
    res.rule("kernel", "on every path of an integer helper, for all inputs, the returned value satisfies the helper's promise")
    res.rule("no-trap", "the divisor of every integer / and % is shown non-zero, and not -1 unless the dividend is not the minimum")
    res.rule("gcd", "one step of the gcd loop keeps the set of common divisors and shrinks the second operand; the result is returned when it reaches zero")
    n = kernels(res, prog)
    res.need(n, "integer helpers", 10)
    traps.gcd(res, prog)
    m = traps.divisions(res, prog)
    res.count("divisions", m)
    res.need(m, "integer divisions", 6)
    res.assumptions += ["intermediate sums in floor/ceil/round/align helpers do not overflow",
                        "T is a 64-bit signed integer (index_t), the only instantiation used by the IR"]
