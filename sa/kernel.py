"""Abstract interpretation of the integer kernels (base/arithmetic.h, base/modulus_remainder.h).

The abstract domain is a disjunction of convex polyhedra over polynomials: every path carries linear constraints (over the
monomials that occur) and every integer is a polynomial with rational coefficients. Machine operations are given their C++
meaning: a / b and a % b introduce the truncated quotient and remainder with the constraints C++ guarantees, shifts their
rounding bounds, __builtin_*_overflow both outcomes. Feasibility of a path is decided by Fourier-Motzkin elimination.
Loops are not unrolled; the functions analysed here have none (gcd is treated by its invariant).
"""
from fractions import Fraction as Q

MIN, MAX = -(1 << 63), (1 << 63) - 1


class Unsupported(Exception):
    """Something an analysis does not model: the obligation is reported as undecided, never as violated."""


# What stops the analysis of one function. Errors of the analysis itself on code it was not written for count as not understood.
GAPS = (Unsupported, TypeError, KeyError, IndexError, AttributeError, ValueError, RecursionError, AssertionError, ZeroDivisionError)


class P:
    """A polynomial: monomial (sorted tuple of atoms) -> coefficient."""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def c(v):
        return P({(): Q(v)})

    @staticmethod
    def a(n):
        return P({(n,): Q(1)})

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, v in self.m.items():
            for k2, v2 in o.m.items():
                kk = tuple(sorted(k + k2))
                r[kk] = r.get(kk, 0) + v * v2
        return P(r)

    def const(self):
        if all(k == () for k in self.m):
            return self.m.get((), Q(0))
        return None

    def subst(self, atom, p):
        r = P()
        for k, v in self.m.items():
            t = P({(): v})
            for x in k:
                t = t * (p if x == atom else P.a(x))
            r = r + t
        return r

    def atoms(self):
        return {a for k in self.m for a in k}

    def key(self):
        return tuple(sorted(self.m.items()))

    def __eq__(self, o):
        return isinstance(o, P) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items()):
            n = "*".join(k)
            if not n:
                out.append(str(v))
            elif v == 1:
                out.append(n)
            elif v == -1:
                out.append("-" + n)
            else:
                out.append("%s*%s" % (v, n))
        return " + ".join(out).replace("+ -", "- ")


def feasible(cons):
    """Whether a set of constraints p >= 0 (over monomials as variables) has a rational solution."""
    rows = set()
    for p in cons:
        c = p.const()
        if c is not None:
            if c < 0:
                return False
            continue
        rows.add(norm(p.m))
    while rows:
        cnt = {}
        for r in rows:
            for k, v in r:
                if k != ():
                    a, b = cnt.get(k, (0, 0))
                    cnt[k] = (a + (v > 0), b + (v < 0))
        if not cnt:
            return all(dict(r).get((), 0) >= 0 for r in rows)
        var = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], k))
        pos, neg, rest = [], [], set()
        for r in rows:
            d = dict(r)
            v = d.get(var, 0)
            if v > 0:
                pos.append(d)
            elif v < 0:
                neg.append(d)
            else:
                rest.add(r)
        for a in pos:
            for b in neg:
                m = {}
                fa, fb = -b[var], a[var]
                for k, v in a.items():
                    m[k] = m.get(k, 0) + v * fa
                for k, v in b.items():
                    m[k] = m.get(k, 0) + v * fb
                m = {k: v for k, v in m.items() if v != 0}
                if all(k == () for k in m):
                    if m.get((), 0) < 0:
                        return False
                    continue
                rest.add(norm(m))
        rows = rest
        if len(rows) > 4000:
            return True
    return True


def norm(m):
    s = max(abs(v) for k, v in m.items() if k != ())
    return tuple(sorted((k, v / s) for k, v in m.items() if v != 0))


class S:
    """One path: variables, constraints (each P >= 0), the returned value."""
    __slots__ = ("env", "cons", "ret", "sub", "nz")

    def __init__(self, env=None, cons=(), sub=(), nz=()):
        self.env, self.cons, self.ret, self.sub = dict(env or {}), list(cons), None, list(sub)
        self.nz = list(nz)

    def copy(self):
        s = S(self.env, self.cons, self.sub, self.nz)
        s.ret = self.ret
        return s

    def add(self, *ps):
        for p in ps:
            if p.const() is not None and p.const() >= 0:
                continue
            self.cons.append(p)
        return self

    def lemmas(self, extra=()):
        """Sign facts about products of two atoms whose signs are known."""
        cons = list(self.cons) + list(extra)
        mons = {k for p in cons for k in p.m if len(k) >= 2}
        out = []
        memo = {}

        def sgn(a):
            if a not in memo:
                x = P.a(a)
                pos, neg = feasible(cons + [x - P.c(1)]), feasible(cons + [-x - P.c(1)])
                zero = feasible(cons + [x, -x])
                memo[a] = (-1 if neg else 0 if zero else 1, 1 if pos else 0 if zero else -1)
            return memo[a]
        for k in mons:
            if len(k) != 2:
                continue
            p = P({k: Q(1)})
            (l1, h1), (l2, h2) = sgn(k[0]), sgn(k[1])
            c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            # the extreme signs of the product; a strict sign means at least one in magnitude
            if min(c) >= 0:
                out.append(p - P.c(min(c)))
            if max(c) <= 0:
                out.append(-p + P.c(max(c)))
        return out

    def ok(self, *extra):
        """Feasible together with the given constraints?"""
        cons = self.cons + list(extra)
        if not feasible(cons):
            return False
        if any(len(k) >= 2 for p in cons for k in p.m):
            return feasible(cons + self.lemmas(extra))
        return True

    def implies(self, p):
        return not self.ok(-p - P.c(1))

    def zero(self, p):
        return self.implies(p) and self.implies(-p)

    def nonzero(self, p):
        return any(q == p or q == -p for q in self.nz) or not self.ok(p, -p)


def le(a, b):
    return b - a


def lt(a, b):
    return b - a - P.c(1)


def contains(k, kb):
    k = list(k)
    for x in kb:
        if x not in k:
            return False
        k.remove(x)
    return True


def without(k, kb):
    k = list(k)
    for x in kb:
        k.remove(x)
    return tuple(k)


class Kernel:
    MAXP = 400

    def __init__(self, prog, special=None):
        self.prog = prog
        self.special = special or {}
        self.n = 0
        self.traps = []      # (node, message) for divisions not shown safe
        self.divs = {}       # node id -> proven safe
        self.wraps = []      # nodes of the analysed function itself whose sum may not fit
        self.depth = 0

    def fresh(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    # -- statements: returns states still running; finished ones go to self.done
    def run(self, f, args, s):
        """All (state, value) returns of f called with args in s."""
        if self.depth > 12:
            raise Unsupported("recursion")
        saved = s.env
        s = s.copy()
        s.env = dict(saved)
        ps = f.params
        for i, p in enumerate(ps):
            if i < len(args):
                v = args[i]
            else:
                v = self.default(p, f, i)
            ref = p["t"].rstrip().endswith("&") and not p["t"].startswith("const")
            s.env[p["d"]] = v if ref or not (isinstance(v, tuple) and v[0] == "loc") else self.load(s, v)
        self.depth += 1
        done = []
        live = self.stmt(f.body, [s], done)
        self.depth -= 1
        out = []
        for st in done + [x for x in live]:
            v = st.ret
            st.ret = None
            out.append((st, v))
        return out

    def default(self, p, f, i):
        if p.get("def") is not None:
            return self.ev1(p["def"], S())
        return P.c(0)

    def ev1(self, n, s):
        r = self.ev(n, s)
        if len(r) != 1:
            raise Unsupported("default argument")
        return r[0][1]

    def load(self, s, v):
        while isinstance(v, tuple) and v[0] == "loc":
            x = s.env.get(v[1])
            for fld in v[2]:
                if not isinstance(x, tuple) or x[0] != "rec":
                    raise Unsupported("field of unknown value")
                x = x[1][fld]
            v = x
        if v is None:
            raise Unsupported("uninitialised value")
        return v

    def store(self, s, loc, v):
        d, path = loc[1], loc[2]
        while isinstance(s.env.get(d), tuple) and s.env[d][0] == "loc":
            _, d2, p2 = s.env[d]
            d, path = d2, p2 + path
        if not path:
            s.env[d] = v
        else:
            s.env[d] = self.put(s.env.get(d), path, v)

    def put(self, rec, path, v):
        if not isinstance(rec, tuple) or rec[0] != "rec":
            raise Unsupported("store")
        m = dict(rec[1])
        m[path[0]] = v if len(path) == 1 else self.put(m[path[0]], path[1:], v)
        return ("rec", m)

    def stmt(self, n, sts, done):
        if n is None or not sts:
            return sts
        k = n["k"]
        if len(sts) > self.MAXP:
            raise Unsupported("too many paths")
        if k == "block":
            for c in n["c"]:
                sts = self.stmt(c, sts, done)
            return sts
        if k == "decl":
            for v in n["v"]:
                nx = []
                for s in sts:
                    if v.get("init") is None:
                        s.env[v["d"]] = self.uninit(v)
                        nx.append(s)
                        continue
                    ref = v["t"].rstrip().endswith("&")
                    if v["init"]["k"] == "lambda":
                        if not all(c.get("ref") or c.get("this") for c in v["init"]["caps"]):
                            raise Unsupported("lambda capturing copies")
                        s.env[v["d"]] = ("lam", v["init"])
                        nx.append(s)
                        continue
                    for s2, x in self.ev(v["init"], s):
                        s2.env[v["d"]] = x if ref else self.load(s2, x)
                        nx.append(s2)
                sts = nx
            return sts
        if k == "return":
            for s in sts:
                if n.get("e") is None:
                    done.append(s)
                    continue
                for s2, x in self.ev(n["e"], s):
                    s2.ret = self.load(s2, x)
                    done.append(s2)
            return []
        if k == "if":
            out = []
            for s in sts:
                if n.get("init"):
                    for s1 in self.stmt(n["init"], [s], done):
                        out += self.branch(n, s1, done)
                else:
                    out += self.branch(n, s, done)
            return out
        if k in ("nop", "null_stmt"):
            return sts
        if k == "switch" or k in ("for", "while", "do", "rfor"):
            raise Unsupported(k)
        out = []
        for s in sts:
            out += [s2 for s2, _ in self.ev(n, s)]
        return out

    def uninit(self, v):
        if "modulus_remainder" in v["t"]:
            return ("rec", {"modulus": P.c(1), "remainder": P.c(0)})
        return None

    def branch(self, n, s, done):
        out = []
        for s2, c in self.truth(n["c"], s):
            out += self.stmt(n["a"] if c else n.get("b"), [s2], done)
        return out

    # -- conditions: list of (state, bool)
    def truth(self, n, s):
        k = n["k"]
        if k == "paren" or (k == "cast" and "e" in n):
            return self.truth(n["e"], s)
        if k == "un" and n["op"] == "!":
            return [(a, not b) for a, b in self.truth(n["e"], s)]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s2, b in self.truth(n["L"], s):
                if b == (n["op"] == "&&"):
                    out += self.truth(n["R"], s2)
                else:
                    out.append((s2, b))
            return out
        out = []
        for s2, v in self.ev(n, s):
            out += self.as_bool(s2, self.load(s2, v))
        return out

    def as_bool(self, s, v):
        if isinstance(v, bool):
            return [(s, v)]
        if isinstance(v, P):
            return [(a, not b) for a, b in self.split_eq(s, v, P.c(0))]
        raise Unsupported("condition")

    def split_eq(self, s, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return [(s, c == 0)]
        out = []
        e = s.copy()
        if e.ok(d, -d):
            e.add(d, -d)
            self.solve(e, d)
            out.append((e, True))
        if not s.nonzero(d):
            lo, hi = s.copy(), s.copy()
            # d != 0 is a disjunction; splitting by sign keeps each path convex.
            if hi.ok(d - P.c(1)):
                hi.add(d - P.c(1))
                hi.nz.append(d)
                out.append((hi, False))
            if lo.ok(-d - P.c(1)):
                lo.add(-d - P.c(1))
                lo.nz.append(d)
                out.append((lo, False))
        else:
            out.append((s, False))
        return out

    def solve(self, s, d):
        """d == 0 was learned: substitute an atom that occurs linearly with coefficient +-1."""
        for k, v in sorted(d.m.items()):
            if len(k) == 1 and abs(v) == 1 and sum(k[0] in kk for kk in d.m) == 1:
                a = k[0]
                rest = P({kk: vv for kk, vv in d.m.items() if kk != k})
                val = rest * P.c(-1 / v)
                self.subst(s, a, val)
                return

    def subst(self, s, a, val):
        def go(x):
            if isinstance(x, P):
                return x.subst(a, val) if a in x.atoms() else x
            if isinstance(x, tuple) and x[0] == "rec":
                return ("rec", {k: go(v) for k, v in x[1].items()})
            return x
        s.env = {k: go(v) for k, v in s.env.items()}
        s.cons = [go(c) for c in s.cons]
        s.nz = [go(c) for c in s.nz]
        s.sub.append((a, val))

    def fix(self, s, p):
        """p with the substitutions made on this path."""
        for a, v in s.sub:
            if a in p.atoms():
                p = p.subst(a, v)
        return p

    # -- expressions: list of (state, value)
    def ev(self, n, s):
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if n.get("cv") is not None and k not in ("ref", "mem", "call") and "s" not in n:
            t = n.get("t", "")
            return [(s, bool(n["cv"]) if t == "bool" else P.c(int(n["cv"])))]
        if m is None:
            raise Unsupported("expression " + k)
        if k == "call":
            lam = self.called_lambda(n, s)
            if lam is not None:
                return self.run_lambda(lam[0], lam[1], s)
        return m(n, s)

    def called_lambda(self, n, s):
        """(lambda, arguments) of a call of a lambda that is defined in the function being followed."""
        c, args = n.get("callee"), n["args"]
        if c is None and n.get("op") == "()" and n.get("lam") and args:
            c, args = args[0], args[1:]
        while c is not None and c["k"] in ("paren", "cast"):
            c = c.get("e")
        if c is None:
            return None
        if c["k"] == "ref":
            v = s.env.get(c.get("d"))
            return (v[1], args) if isinstance(v, tuple) and v and v[0] == "lam" else None
        return (c, args) if c["k"] == "lambda" else None

    def run_lambda(self, lam, args, s):
        body = lam.get("body")
        if body is None or lam.get("insts") or len(args) != len(lam["params"]):
            raise Unsupported("lambda")
        if self.depth > 12:
            raise Unsupported("recursion")
        byref = [i for i, p in enumerate(lam["params"]) if p["t"].rstrip().endswith("&") and not p["t"].startswith("const")]
        out = []
        for s2, vs in self.evs(args, s, byref):
            s2 = s2.copy()
            for i, p in enumerate(lam["params"]):
                s2.env[p["d"]] = vs[i]
            was = s2.ret
            done = []
            self.depth += 1
            try:
                live = self.stmt(body, [s2], done)
            finally:
                self.depth -= 1
            for st in done + list(live):
                v, st.ret = st.ret, was
                out.append((st, v))
        return out

    def e_paren(self, n, s):
        return self.ev(n["e"], s)

    def e_lit(self, n, s):
        if "cv" not in n:
            raise Unsupported("literal")
        return [(s, P.c(int(n["cv"])))]

    def e_zero(self, n, s):
        return [(s, P.c(0))]

    def e_ilist(self, n, s):
        if not n["c"]:
            return [(s, P.c(0))]
        if len(n["c"]) == 1:
            return self.ev(n["c"][0], s)
        return self.construct(n, n["c"], s)

    def e_defarg(self, n, s):
        return self.ev(n["e"], s)

    def e_sizeof(self, n, s):
        return [(s, P.c(8))]

    def e_ref(self, n, s):
        d = n["d"] if "d" in n else None
        if d in s.env:
            return [(s, ("loc", d, ()))]
        if n.get("cv") is not None:
            return [(s, P.c(int(n["cv"])))]
        raise Unsupported("variable " + n["n"])

    def e_dref(self, n, s):
        if n["n"] == "is_signed_v":
            return [(s, True)]
        raise Unsupported("name " + n["n"])

    def e_mem(self, n, s):
        out = []
        for s2, b in self.ev(n["b"], s):
            if isinstance(b, tuple) and b[0] == "loc":
                out.append((s2, ("loc", b[1], b[2] + (n["n"],))))
            elif isinstance(b, tuple) and b[0] == "rec":
                out.append((s2, b[1][n["n"]]))
            else:
                raise Unsupported("member")
        return out

    def e_cast(self, n, s):
        return self.ev(n["e"], s)

    def e_cond(self, n, s):
        out = []
        for s2, c in self.truth(n["c"], s):
            out += self.ev(n["a"] if c else n["b"], s2)
        return out

    def e_un(self, n, s):
        op = n["op"]
        if op == "!":
            return [(a, b) for a, b in [(x, not y) for x, y in self.truth(n["e"], s)]]
        out = []
        for s2, v in self.ev(n["e"], s):
            if op in ("&", "*"):
                out.append((s2, v))
                continue
            x = self.load(s2, v)
            if op == "-":
                self.wrap(n, -x, s2)
                out.append((s2, -x))
            elif op == "+":
                out.append((s2, x))
            elif op == "~":
                out.append((s2, -x - P.c(1)))
            elif op in ("++", "--"):
                y = x + P.c(1 if op == "++" else -1)
                self.store(s2, v, y)
                out.append((s2, x if n.get("post") else y))
            else:
                raise Unsupported(op)
        return out

    def e_bin(self, n, s):
        op = n["op"]
        if op in ("&&", "||"):
            return self.truth(n, s)
        if op == ",":
            return [r for s2, _ in self.ev(n["L"], s) for r in self.ev(n["R"], s2)]
        out = []
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            for s2, r in self.ev(n["R"], s):
                for s3, l in self.ev(n["L"], s2):
                    rv = self.load(s3, r)
                    if op == "=":
                        self.store(s3, l, rv)
                        out.append((s3, l))
                    else:
                        lv = self.load(s3, l)
                        for s4, v in self.arith(op[:-1], lv, rv, s3, n):
                            if isinstance(v, bool):
                                v = v
                            self.store(s4, l, v)
                            out.append((s4, l))
            return out
        for s2, l in self.ev(n["L"], s):
            lv = self.load(s2, l)
            # keep the left value alive under later substitutions
            key = self.fresh("tmp")
            s2.env[key] = lv
            for s3, r in self.ev(n["R"], s2):
                rv = self.load(s3, r)
                a = s3.env.get(key)
                out += self.arith(op, a, rv, s3, n)
        return out

    def arith(self, op, a, b, s, n):
        if isinstance(a, bool) and isinstance(b, bool):
            if op in ("==", "!="):
                return [(s, (a == b) == (op == "=="))]
            if op in ("|", "&", "^"):
                return [(s, (a or b) if op == "|" else (a and b) if op == "&" else a != b)]
        if isinstance(a, bool):
            a = P.c(int(a))
        if isinstance(b, bool):
            b = P.c(int(b))
        if not isinstance(a, P) or not isinstance(b, P):
            raise Unsupported("operands of " + op)
        if op in ("+", "-"):
            r = a + b if op == "+" else a - b
            self.wrap(n, r, s)
            return [(s, r)]
        if op == "*":
            return [(s, a * b)]
        if op in ("/", "%"):
            return self.trunc(op, a, b, s, n)
        if op == ">>":
            return self.shr(a, b, s)
        if op == "<<":
            c = b.const()
            if c is None:
                raise Unsupported("<<")
            return [(s, a * P.c(1 << int(c)))]
        if op in ("&", "|"):
            return self.bits(op, a, b, s)
        if op == "==":
            return self.split_eq(s, a, b)
        if op == "!=":
            return [(x, not y) for x, y in self.split_eq(s, a, b)]
        if op in ("<", "<=", ">", ">="):
            if op in (">", ">="):
                a, b = b, a
            t = lt(a, b) if op in ("<", ">") else le(a, b)
            return self.split_ge(s, t)
        raise Unsupported(op)

    def split_ge(self, s, t):
        """t >= 0 ?"""
        c = t.const()
        if c is not None:
            return [(s, c >= 0)]
        out = []
        if s.ok(t):
            x = s.copy()
            out.append((x.add(t), True))
        f = -t - P.c(1)
        if s.ok(f):
            x = s.copy()
            out.append((x.add(f), False))
        return out

    def trunc(self, op, a, b, s, n):
        """C++ division: rounds toward zero; undefined for b == 0 and for MIN / -1."""
        if len(b.m) == 1 and b.const() is None and s.nonzero(b):
            (kb, vb), = b.m.items()
            if vb == 1 and a.m and all(contains(k, kb) for k in a.m):
                self.divs.setdefault(n.get("id"), (n, True))
                return [(s, P({without(k, kb): v for k, v in a.m.items()}) if op == "/" else P.c(0))]
        if not s.nonzero(b) and s.ok(b, -b):
            self.trap(n, "the divisor may be zero")
            s = s.copy()
        elif s.ok(b + P.c(1), -b - P.c(1), P.c(MIN) - a, a - P.c(MIN)):
            self.trap(n, "the dividend may be the minimum value while the divisor is -1")
        else:
            self.divs.setdefault(n.get("id"), (n, True))
        for k, v in s.env.items():
            if isinstance(k, str) and k.startswith("div#") and v[1]["a"] == a and v[1]["b"] == b:
                return [(s, v[1]["q"] if op == "/" else v[1]["r"])]
        out = []
        # a constant divisor or a known sign of the divisor
        for sb in (1, -1):
            cb = b - P.c(1) if sb > 0 else -b - P.c(1)
            if not s.ok(cb):
                continue
            for sa in (1, -1):
                ca = a if sa > 0 else -a - P.c(1)
                if not s.ok(cb, ca):
                    continue
                x = s.copy().add(cb, ca)
                q, r = P.a(self.fresh("q")), P.a(self.fresh("r"))
                absb = b if sb > 0 else -b
                if sa > 0:
                    x.add(r, absb - r - P.c(1))
                else:
                    x.add(-r, absb + r - P.c(1))
                if sa * sb > 0:
                    x.add(q)
                else:
                    x.add(-q)
                d = q * b + r - a
                key = self.fresh("div#")
                x.env[key] = ("rec", {"a": a, "b": b, "q": q, "r": r})
                x.add(d, -d)
                self.define(x, a, q * b + r)
                v = x.env[key][1]
                out.append((x, v["q"] if op == "/" else v["r"]))
        return out

    def define(self, s, a, val):
        """Records a == val, eliminating a if it is an atom."""
        if len(a.m) == 1:
            (k, v), = a.m.items()
            if len(k) == 1 and v == 1 and k[0] not in val.atoms():
                self.subst(s, k[0], val)
                s.cons = [c for c in s.cons if c.m]
                return
        self.solve(s, a - val)

    def shr(self, a, b, s):
        c = b.const()
        if c is None:
            raise Unsupported(">>")
        c = int(c)
        if c >= 31:
            return [(x, P.c(0) if y else P.c(-1)) for x, y in self.split_ge(s, a)]
        h = P.a(self.fresh("h"))
        x = s.copy()
        x.add(a - h * P.c(1 << c), h * P.c(1 << c) + P.c((1 << c) - 1) - a)
        for lim, sg in ((MIN, 1), (MAX, -1)):
            if s.implies(P.c(sg) * (a - P.c(lim))):
                x.add(P.c(sg) * (h - P.c(lim >> c)))
        return [(x, h)]

    def bits(self, op, a, b, s):
        for x, y in ((a, b), (b, a)):
            c = y.const()
            if c == 0:
                return [(s, P.c(0) if op == "&" else x)]
            if c == -1:
                return [(s, x if op == "&" else P.c(-1))]
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return [(s, P.c(int(ca) & int(cb) if op == "&" else int(ca) | int(cb)))]
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if x - y == P.c(1) and len(x.m) == 1:
                    # x & (x - 1): x without its lowest bit.
                    low = P.a("low(%r)" % x)
                    t = s.copy()
                    if t.zero(x):
                        return [(t, P.c(0))]
                    return [(t, low)]
        raise Unsupported(op)

    def trap(self, n, msg):
        self.traps.append((n, msg))

    def wrap(self, n, r, s):
        """Remembers sums that do not fit for some arguments (only linear ones, where that is decided exactly)."""
        if self.depth == 1 and r.const() is None and all(len(k) <= 1 for k in r.m) and (s.ok(r - P.c(MAX) - P.c(1)) or s.ok(P.c(MIN) - r - P.c(1))):
            self.wraps.append(n)

    # -- calls
    def e_ctor(self, n, s):
        return self.construct(n, n["args"], s)

    def construct(self, n, args, s):
        t = n.get("t", "")
        if "modulus_remainder" in t:
            if len(args) == 1:
                return [(a, self.load(a, b)) for a, b in self.ev(args[0], s)]
            if not args:
                return [(s, ("rec", {"modulus": P.c(1), "remainder": P.c(0)}))]
            out = []
            for s2, vs in self.evs(args, s):
                out.append((s2, ("rec", {"modulus": vs[0], "remainder": vs[1]})))
            return out
        if len(args) == 1:
            return self.ev(args[0], s)
        raise Unsupported("constructor of " + t)

    def evs(self, args, s, byref=()):
        """Evaluates arguments; by-reference ones stay locations."""
        res = [(s, [])]
        for i, a in enumerate(args):
            nx = []
            for s2, keys in res:
                for s3, v in self.ev(a, s2):
                    if i not in byref:
                        v = self.load(s3, v)
                    key = self.fresh("arg")
                    s3.env[key] = v
                    nx.append((s3, keys + [key]))
            res = nx
        return [(s2, [s2.env[k] for k in keys]) for s2, keys in res]

    def e_call(self, n, s):
        name = (n.get("fn") or (n.get("callee") or {}).get("n") or "")
        last = name.split("::")[-1].split("<")[0]
        args = n["args"]
        if last in ("max", "min") and not args:
            return [(s, P.c(MAX if last == "max" else MIN))]
        if last in ("move", "forward") and len(args) == 1:
            return self.ev(args[0], s)
        if last == "swap" and len(args) == 2:
            out = []
            for s2, (a, b) in self.evs(args, s, (0, 1)):
                x, y = self.load(s2, a), self.load(s2, b)
                self.store(s2, a, y)
                self.store(s2, b, x)
                out.append((s2, None))
            return out
        if last in ("min", "max") and len(args) == 2:
            out = []
            for s2, (a, b) in self.evs(args, s):
                k1, k2 = self.fresh("arg"), self.fresh("arg")
                s2.env[k1], s2.env[k2] = a, b
                for s3, c in self.split_ge(s2, b - a):
                    out.append((s3, s3.env[k1] if c == (last == "min") else s3.env[k2]))
            return out
        if last == "abs" and len(args) == 1:
            out = []
            for s2, (a,) in self.evs(args, s):
                k1 = self.fresh("arg")
                s2.env[k1] = a
                for s3, c in self.split_ge(s2, a):
                    out.append((s3, s3.env[k1] if c else -s3.env[k1]))
            return out
        if last in ("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow"):
            return self.overflow(last, args, s)
        if last == "__builtin_expect":
            return self.ev(args[0], s)
        if last in self.special:
            out = []
            for s2, vs in self.evs(args, s):
                out += self.special[last](self, s2, vs, n)
            return out
        f = self.target(n, last, len(args))
        if f is None:
            raise Unsupported("call of " + name)
        byref = [i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("&") and not p["t"].startswith("const")]
        out = []
        real = [a for a in args if a["k"] != "defarg"]
        for s2, vs in self.evs(real, s, byref):
            saved = dict(s2.env)
            for s3, v in self.run(f, vs, s2):
                # the callee's locals stay in env; ids are unique except under recursion
                out.append((s3, v))
        return out

    def target(self, n, last, nargs):
        f = self.prog.callee(n["fid"]) if n.get("fid") else None
        if f is None or f.body is None:
            fs = [x for x in self.prog.fn("slinky::" + last, dep=True) if x.body and len(x.params) >= nargs
                  and not any("expr" in p["t"] for p in x.params)]
            fs.sort(key=lambda x: x.dep)
            f = fs[0] if fs else None
        return f

    def overflow(self, last, args, s):
        out = []
        for s2, (a, b, loc) in self.evs(args, s, (2,)):
            op = {"__builtin_add_overflow": a + b, "__builtin_sub_overflow": a - b, "__builtin_mul_overflow": a * b}[last]
            key = self.fresh("arg")
            ok = s2.copy().add(op - P.c(MIN), P.c(MAX) - op)
            if ok.ok():
                self.store(ok, loc, op)
                out.append((ok, False))
            for c in (op - P.c(MAX) - P.c(1), P.c(MIN) - op - P.c(1)):
                x = s2.copy()
                if x.ok(c):
                    x.add(c)
                    self.store(x, loc, P.a(self.fresh("wrapped")))
                    out.append((x, True))
        return out
