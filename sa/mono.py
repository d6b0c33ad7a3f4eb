"""Order reasoning about terms of the IR's operators: a <= b from facts, signs and monotonicity.

prove(facts, lo, hi) splits on the signs of the atoms and, in each case, looks for a chain of monotone steps from lo to hi
(t1 <= t2 because the operator is increasing/decreasing in the argument that differs, given the sign of the other). refute()
instantiates the same terms with small integers that satisfy the facts; it is used only to tell a formula that is wrong from
one the rules do not cover.
"""
import itertools
from .kernel import P
from .terms import Term, C, V, UNDEF, NEG, POS, BOOL, FIELDS

ALL = frozenset((-1, 0, 1))
B01 = frozenset((0, 1))


def norm(t, z):
    """Replaces atoms known to be zero and folds what follows."""
    if t.op == "v":
        return C(0) if z.get(t) == 0 else t
    if not t.args or t.op == "c":
        return t
    a = [norm(x, z) if isinstance(x, Term) else x for x in t.args]
    r = fold(t.op, a)
    return r if r is not None else Term(t.op, *a)


def fold(op, a):
    if all(isinstance(x, Term) and x.op == "c" for x in a):
        v = evalop(op, [x.args[0] for x in a])
        return None if v is None else C(v)
    zero = C(0)
    if op == "mul" and zero in a:
        return zero
    if op in ("div", "mod") and (a[0] == zero or a[1] == zero):
        return zero
    if op in ("add",) and zero in a:
        return a[1] if a[0] == zero else a[0]
    if op == "sub" and a[1] == zero:
        return a[0]
    if op in ("min", "max") and a[0] == a[1]:
        return a[0]
    if op == "div" and a[1] == C(1) or op == "mul" and a[1] == C(1):
        return a[0]
    if op == "mul" and a[0] == C(1):
        return a[1]
    if op == "mod" and a[1] in (C(1), C(-1)):
        return zero
    return None


def ediv(a, b):
    if b == 0:
        return 0
    q = a // abs(b)
    return q if b > 0 else -q


def evalop(op, v):
    if any(x is None for x in v):
        if op in ("logical_and", "and_then") and 0 in v:
            return 0
        return None
    if op == "add":
        return v[0] + v[1]
    if op == "sub":
        return v[0] - v[1]
    if op == "mul":
        return v[0] * v[1]
    if op == "div":
        return ediv(*v)
    if op == "mod":
        return v[0] - ediv(*v) * v[1] if v[1] else 0
    if op == "min":
        return min(v)
    if op == "max":
        return max(v)
    if op == "less":
        return int(v[0] < v[1])
    if op == "less_equal":
        return int(v[0] <= v[1])
    if op == "equal":
        return int(v[0] == v[1])
    if op == "not_equal":
        return int(v[0] != v[1])
    if op in ("logical_and", "and_then"):
        return int(v[0] != 0 and v[1] != 0)
    if op in ("logical_or", "or_else"):
        return int(v[0] != 0 or v[1] != 0)
    if op == "logical_not":
        return int(v[0] == 0)
    if op == "select":
        return v[1] if v[0] else v[2]
    if op == "abs":
        return abs(v[0])
    return None


INF = object()


def evaluate(t, env):
    if t.op == "c":
        return t.args[0]
    if t.op == "v":
        return env[t]
    if t.op in ("undef", "-inf", "+inf"):
        return None
    if t.op == "select":
        c = evaluate(t.args[0], env)
        return None if c is None else evaluate(t.args[1 if c else 2], env)
    return evalop(t.op, [evaluate(x, env) for x in t.args])


def holds(f, env):
    rel, a, b = f
    x, y = evaluate(a, env), evaluate(b, env)
    if x is None or y is None:
        return True
    return {"==": x == y, "def": x == y, "!=": x != y, "<": x < y, "<=": x <= y, "bool=": (x != 0) == (y != 0), "isbool": x in (0, 1)}[rel]


class Case:
    """One assignment of signs to the atoms (possibly partial), with the facts under it."""

    def __init__(self, facts, signs):
        self.signs = signs
        self.facts = []
        for rel, a, b in facts:
            self.facts.append((rel, norm(a, signs), norm(b, signs)))
            if rel == "==" and a.op == b.op and a.op in ("add", "sub"):
                for i in (0, 1):
                    if a.args[i] == b.args[i]:
                        self.facts.append((rel, norm(a.args[1 - i], signs), norm(b.args[1 - i], signs)))
        self.eqs = [(a, b) for r, a, b in self.facts if r == "=="]
        self.memo = {}
        self.le_f = {}
        self.ge_f = {}
        self.bools = {a for r, a, b in self.facts if r == "isbool"}
        for r, a, b in self.facts:
            if r in ("<", "<=", "=="):
                self.le_f.setdefault(a, []).append((b, r == "<"))
                self.ge_f.setdefault(b, []).append((a, r == "<"))
            if r == "==":
                self.le_f.setdefault(b, []).append((a, False))
                self.ge_f.setdefault(a, []).append((b, False))

    def consistent(self):
        for rel, a, b in self.facts:
            x, y = self.sg(a), self.sg(b)
            if rel in ("<=",) and min(x) > max(y):
                return False
            if rel == "<" and (min(x) > max(y) or (x == y == {0})):
                return False
            if rel == "==" and not (x & y):
                return False
            if rel == "!=" and x == y == {0}:
                return False
            if rel == "bool=" and ((x == {0} and 0 not in y) or (y == {0} and 0 not in x)):
                return False
            if rel == "isbool" and x == {-1}:
                return False
        return True

    def sg(self, t):
        if t.op == "c":
            v = t.args[0]
            return frozenset(((v > 0) - (v < 0),))
        if t.op == "v":
            return frozenset((self.signs[t],)) if t in self.signs else ALL
        if t.op == "-inf":
            return frozenset((-1,))
        if t.op == "+inf":
            return frozenset((1,))
        if t.op in BOOL:
            return B01
        a = [self.sg(x) for x in t.args if isinstance(x, Term)]
        if t.op in ("mul",):
            return frozenset(x * y for x in a[0] for y in a[1])
        if t.op == "div":
            r = set()
            for x in a[0]:
                for y in a[1]:
                    p = x * y
                    r |= {p} | ({0} if x > 0 else set())
                    if y == 0:
                        r |= {0}
            return frozenset(r)
        if t.op == "mod":
            return B01
        if t.op == "abs":
            return frozenset(abs(x) for x in a[0])
        if t.op in ("min", "max"):
            f = min if t.op == "min" else max
            return frozenset(f(x, y) for x in a[0] for y in a[1])
        if t.op in ("add", "sub"):
            r = set()
            for x in a[0]:
                for y in a[1]:
                    y2 = y if t.op == "add" else -y
                    r |= {x} if y2 == 0 else {y2} if x == 0 else {x} if x == y2 else {-1, 0, 1}
            return frozenset(r)
        if t.op == "select":
            return a[1] | a[2]
        return ALL

    def boolean(self, t):
        return t.op in BOOL or t in self.bools or (t.op == "c" and t.args[0] in (0, 1)) or \
            (t.op in ("min", "max", "mul") and all(self.boolean(x) for x in t.args))

    # a <= b
    def le(self, a, b, d=9):
        if a == b:
            return True
        if a.op == "-inf" or b.op == "+inf" or a.op == "undef" or b.op == "undef":
            return True
        if a.op == "c" and b.op == "c":
            return a.args[0] <= b.args[0]
        if max(self.sg(a)) <= 0 <= min(self.sg(b)):
            return True
        if self.boolean(a) and b.op == "c" and b.args[0] >= 1:
            return True
        # integers: 0 < b is 1 <= b, a < 0 is a <= -1
        if a.op == "c" and a.args[0] <= 1 and min(self.sg(b)) >= 1:
            return True
        if b.op == "c" and b.args[0] >= -1 and max(self.sg(a)) <= -1:
            return True
        key = (a, b)
        if key in self.memo:
            m = self.memo[key]
            if m[0] or m[1] >= d:
                return m[0]
        if d <= 0:
            return False
        self.memo[key] = (False, d)
        r = self._le(a, b, d)
        if not r and (a.op in ("add", "sub", "mul") or b.op in ("add", "sub", "mul")):
            r = poly(a) == poly(b) or self.linear(a, b, d)
        self.memo[key] = (r, d)
        return r

    def lt(self, a, b, d=4):
        if a.op == "c" and b.op == "c":
            return a.args[0] < b.args[0]
        if max(self.sg(a)) < min(self.sg(b)):
            return True
        if d <= 0:
            return False
        for x, strict in self.le_f.get(a, ()):
            if strict and self.le(x, b, d - 1) or (not strict and self.lt(x, b, d - 1)):
                return True
        for x, strict in self.ge_f.get(b, ()):
            if strict and self.le(a, x, d - 1) or (not strict and self.lt(a, x, d - 1)):
                return True
        return False

    def linear(self, a, b, d):
        """b - a as a sum of terms: each negative one is covered by a larger positive one, or is not positive itself."""
        if not any(t.op in ("add", "sub") or (t.op == "mul" and t.args[0].op == "div") for t in (a, b)):
            return False
        m, c = lin(b)
        m2, c2 = lin(a)
        m = dict(m)
        for t, k in m2.items():
            m[t] = m.get(t, 0) - k
        pos, neg = [], []
        for t, k in m.items():
            if abs(k) > 2:
                return False
            (pos if k > 0 else neg).extend([t] * abs(k))
        if len(pos) + len(neg) > 5:
            return False
        return self.cover(tuple(pos), tuple(neg), c - c2, d - 2)

    def cover(self, pos, neg, c, d):
        for t in neg:
            if t in pos:
                pos = list(pos)
                neg = list(neg)
                pos.remove(t)
                neg.remove(t)
                return self.cover(tuple(pos), tuple(neg), c, d)
        # rounding to a multiple: x - (y - 1) <= (x / y) * y <= x for y > 0
        for i, t in enumerate(pos + neg):
            if t.op == "mul" and t.args[0].op == "div" and t.args[0].args[1] == t.args[1] and min(self.sg(t.args[1])) > 0 and d > 0:
                up = i >= len(pos)
                p2, n2 = list(pos), list(neg)
                (n2 if up else p2).remove(t)
                m, k = lin(t.args[0].args[0])
                for u, w in m.items():
                    if abs(w) != 1:
                        return False
                    ((n2 if w > 0 else p2) if up else (p2 if w > 0 else n2)).append(u)
                k = -k if up else k
                if not up:
                    n2.append(t.args[1])
                    k += 1
                if self.cover(tuple(p2), tuple(n2), c + k, d - 1):
                    return True
        if not neg:
            if c >= 0:
                return all(min(self.sg(t)) >= 0 for t in pos)
            return c >= -1 and any(min(self.sg(t)) > 0 for t in pos) and all(min(self.sg(t)) >= 0 for t in pos)
        t = neg[0]
        if max(self.sg(t)) <= 0 and self.cover(pos, neg[1:], c, d):
            return True
        for i, p in enumerate(pos):
            if self.le(t, p, d - 1) and self.cover(pos[:i] + pos[i + 1:], neg[1:], c + self.lt(t, p, 1), d):
                return True
        return False

    def _le(self, a, b, d):
        le = lambda x, y: self.le(x, y, d - 1)
        # decomposition of min / max
        if a.op == "max" and all(le(x, b) for x in a.args):
            return True
        if b.op == "min" and all(le(a, x) for x in b.args):
            return True
        if a.op == "min" and any(le(x, b) for x in a.args):
            return True
        if b.op == "max" and any(le(a, x) for x in b.args):
            return True
        # facts
        for x, _ in self.le_f.get(a, ()):
            if le(x, b):
                return True
        for x, _ in self.ge_f.get(b, ()):
            if le(a, x):
                return True
        # monotone steps
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("v", "c"):
            if self.steps(a, b, d):
                return True
        for x, y, up in ((a, b, True), (b, a, False)):
            # up: x <= y ; otherwise y <= x
            le2 = (lambda p, q: le(p, q)) if up else (lambda p, q: le(q, p))
            if x.op == "abs":
                s = self.sg(x.args[0])
                if min(s) >= 0 and le2(x.args[0], y):
                    return True
                if max(s) <= 0 and le2(Term("sub", C(0), x.args[0]), y):
                    return True
                if up and le(x.args[0], y) and le(Term("sub", C(0), x.args[0]), y):
                    return True
                if not up and (le(y, x.args[0]) or le(y, Term("sub", C(0), x.args[0]))):
                    return True
            if x.op == "sub" and x.args[0] == C(0) and x.args[1].op == "sub" and x.args[1].args[0] == C(0) \
                    and le2(x.args[1].args[1], y):
                return True
            if x.op == "select":
                c = self.truth(x.args[0])
                if c is not None and le2(x.args[1 if c else 2], y):
                    return True
                if le2(x.args[1], y) and le2(x.args[2], y):
                    return True
            if x.op in BOOL:
                c = self.truth(x)
                if c is not None and le2(C(c), y):
                    return True
                if x.op == "equal":
                    p, q = x.args
                    if up and (le(Term("less_equal", p, q), y) or le(Term("less_equal", q, p), y)):
                        return True
                if x.op == "not_equal":
                    p, q = x.args
                    if not up and (le(y, Term("less", p, q)) or le(y, Term("less", q, p))):
                        return True
                if x.op == "not_equal" and x.args[1] == C(0) and self.boolean(x.args[0]) and le2(x.args[0], y):
                    return True
                # and <= each operand's truth; or >= each operand's truth
                if x.op in ("logical_and", "and_then") and up and any(self.boolean(p) and le(p, y) for p in x.args):
                    return True
                if x.op in ("logical_and", "and_then") and not up and all(self.boolean(p) and le(y, p) for p in x.args):
                    return True
                if x.op in ("logical_or", "or_else") and not up and any(self.boolean(p) and le(y, p) for p in x.args):
                    return True
                if x.op in ("logical_or", "or_else") and up and all(self.boolean(p) and le(p, y) for p in x.args):
                    return True
            if x.op == "div":
                n0 = Term("sub", C(0), x.args[0])
                if up and le(x.args[0], y) and le(n0, y):
                    return True
                if not up and le(y, x.args[0]) and le(y, n0):
                    return True
            if x.op == "mod" and up:
                # x mod y <= max(|y| - 1, 0)
                if y.op == "max" and C(0) in y.args:
                    z = y.args[1] if y.args[0] == C(0) else y.args[0]
                    if z.op == "sub" and z.args[1] == C(1) and le(Term("abs", x.args[1]), z.args[0]):
                        return True
        return False

    def truth(self, t):
        """The truth of a term if it is determined in this case."""
        s = self.sg(t) if t.op not in BOOL else ALL
        if s == {0}:
            return 0
        if 0 not in s:
            return 1
        if t.op in ("less", "less_equal", "equal", "not_equal"):
            a, b = t.args
            if t.op == "less":
                return 1 if self.lt(a, b) else 0 if self.le(b, a, 4) else None
            if t.op == "less_equal":
                return 1 if self.le(a, b, 4) else 0 if self.lt(b, a) else None
            ne = self.lt(a, b) or self.lt(b, a) or any(r == "!=" and {x, y} == {a, b} for r, x, y in self.facts)
            eq = not ne and self.le(a, b, 4) and self.le(b, a, 4)
            if ne:
                return int(t.op == "not_equal")
            if eq:
                return int(t.op == "equal")
            return None
        if t.op == "logical_not":
            c = self.truth(t.args[0])
            return None if c is None else 1 - c
        if t.op in ("logical_and", "logical_or", "and_then", "or_else"):
            c = [self.truth(x) for x in t.args]
            absorbing = 0 if t.op in ("logical_and", "and_then") else 1
            if absorbing in c:
                return absorbing
            return None if None in c else 1 - absorbing
        for r, x, y in self.facts:
            if r == "bool=" and t in (x, y):
                o = y if t == x else x
                if o.op != "v":
                    c = self.truth(o)
                    if c is not None:
                        return c
                elif self.sg(o) == {0}:
                    return 0
                elif 0 not in self.sg(o):
                    return 1
            if r == "!=" and ((x == t and y == C(0)) or (y == t and x == C(0))):
                return 1
            if r == "==" and ((x == t and y == C(0)) or (y == t and x == C(0))):
                return 0
        return None

    def dir(self, op, i, other, x, y):
        """Direction of op in argument i (+1 increasing, -1 decreasing, 0 unknown) between x and y, the other being fixed."""
        if op in ("add", "min", "max", "sub"):
            return -1 if op == "sub" and i == 1 else 1
        if op in ("less", "less_equal"):
            return -1 if i == 0 else 1
        if op in ("logical_and", "logical_or", "and_then", "or_else"):
            return 1 if self.boolean(x) and self.boolean(y) or min(self.sg(x) | self.sg(y)) >= 0 else 0
        if op == "logical_not":
            return -1 if self.boolean(x) and self.boolean(y) or min(self.sg(x) | self.sg(y)) >= 0 else 0
        if op == "mul":
            s = self.sg(other)
            return 1 if min(s) >= 0 else -1 if max(s) <= 0 else 0
        if op == "div":
            if i == 0:
                s = self.sg(other)
                return 1 if min(s) >= 0 else -1 if max(s) <= 0 else 0
            xs, ys = self.sg(x), self.sg(y)
            same = (min(xs) > 0 and min(ys) > 0) or (max(xs) < 0 and max(ys) < 0)
            s = self.sg(other)
            if same:
                return -1 if min(s) >= 0 else 1 if max(s) <= 0 else 0
        if op == "select" and i in (1, 2):
            return 1
        return 0

    def steps(self, a, b, d, swapped=False):
        n = len(a.args)
        if any(not isinstance(x, Term) for x in a.args + b.args):
            return a.args == b.args
        diff = [i for i in range(n) if a.args[i] != b.args[i]]
        if a.op in ("add", "mul", "min", "max", "equal", "not_equal") and n == 2 and diff:
            sw = Term(b.op, b.args[1], b.args[0])
            if sw == a:
                return True
            if not swapped and self.steps(a, sw, d, True):
                return True
        for order in itertools.permutations(diff):
            cur = list(a.args)
            ok = True
            for i in order:
                x, y = cur[i], b.args[i]
                other = cur[1 - i] if n == 2 else None
                dr = self.dir(a.op, i, other, x, y)
                if dr == 1 and self.le(x, y, d - 1) or dr == -1 and self.le(y, x, d - 1) or \
                        (self.le(x, y, d - 1) and self.le(y, x, d - 1)):
                    cur[i] = y
                    continue
                ok = False
                break
            if ok:
                return True
        return False


def relevant(facts, ts):
    at = set()
    for t in ts:
        at |= t.atoms()
    while True:
        new = set(at)
        for r, a, b in facts:
            f = a.atoms() | b.atoms()
            if f & at:
                new |= f
        if new == at:
            return at
        at = new


def subst(t, m):
    if t.op == "v":
        return m.get(t, t)
    if t.op == "c" or not t.args:
        return t
    return Term(t.op, *[subst(x, m) if isinstance(x, Term) else x for x in t.args])


def inline_defs(facts, ts):
    """Replaces atoms that facts define by their definitions."""
    facts, ts = list(facts), list(ts)
    while True:
        d = next((f for f in facts if f[0] == "def"), None)
        if d is None:
            return facts, ts
        facts.remove(d)
        if d[1].op != "v" or d[1] in d[2].atoms():
            facts.append(("==", d[1], d[2]))
            continue
        m = {d[1]: d[2]}
        facts = [(r, subst(x, m), subst(y, m)) for r, x, y in facts]
        ts = [subst(t, m) for t in ts]


def expand(facts):
    """Adds what the truth of comparisons and connectives means."""
    out, work = [], list(facts)
    while work:
        f = work.pop(0)
        if f in out:
            continue
        out.append(f)
        r, a, b = f
        if r not in ("!=", "==") or C(0) not in (a, b) and not (r == "==" and C(1) in (a, b)):
            continue
        t = a if b.op == "c" else b
        k = b if b.op == "c" else a
        truth = (r == "!=") if k == C(0) else True
        if t.op == "v":
            for r2, x, y in facts:
                o = y if x == t else x if y == t else None
                if r2 in ("==", "bool=") and o is not None and o.op in BOOL:
                    work.append(("!=" if truth else "==", o, C(0)))
        if t.op == "less":
            work.append(("<", t.args[0], t.args[1]) if truth else ("<=", t.args[1], t.args[0]))
        elif t.op == "less_equal":
            work.append(("<=", t.args[0], t.args[1]) if truth else ("<", t.args[1], t.args[0]))
        elif t.op in ("equal", "not_equal"):
            work.append(("==" if truth == (t.op == "equal") else "!=", t.args[0], t.args[1]))
        elif t.op == "logical_not":
            work.append(("==" if truth else "!=", t.args[0], C(0)))
        elif t.op in ("logical_and", "and_then") and truth or t.op in ("logical_or", "or_else") and not truth:
            work += [("!=" if truth else "==", x, C(0)) for x in t.args]
    return out


def lin(t):
    """t as a sum of integer multiples of terms, and a constant."""
    if t.op == "c":
        return {}, t.args[0]
    if t.op in ("add", "sub"):
        (m, c), (m2, c2) = lin(t.args[0]), lin(t.args[1])
        k = 1 if t.op == "add" else -1
        m = dict(m)
        for x, v in m2.items():
            m[x] = m.get(x, 0) + k * v
        return {x: v for x, v in m.items() if v}, c + k * c2
    if t.op == "mul" and "c" in (t.args[0].op, t.args[1].op):
        k, x = t.args if t.args[0].op == "c" else t.args[::-1]
        m, c = lin(x)
        k = k.args[0]
        return ({y: v * k for y, v in m.items()}, c * k) if k else ({}, 0)
    return {t: 1}, 0


def poly(t):
    """t as a polynomial over its non-linear subterms."""
    if t.op == "c":
        return P.c(t.args[0])
    if t.op in ("add", "sub", "mul"):
        a, b = poly(t.args[0]), poly(t.args[1])
        return a + b if t.op == "add" else a - b if t.op == "sub" else a * b
    return P.a(repr(t))


def prove(facts, a, b, budget=4000):
    """facts entail a <= b."""
    facts, (a, b) = inline_defs(facts, (a, b))
    facts = expand(facts)
    atoms = sorted(relevant(facts, (a, b)), key=repr)
    left = [budget]

    def go(signs, rest):
        c = Case(facts, signs)
        if not c.consistent():
            return True
        if c.le(norm(a, signs), norm(b, signs)):
            return True
        if not rest or left[0] <= 0:
            return False
        left[0] -= 1
        return all(go(dict(signs, **{}) | {rest[0]: s}, rest[1:]) for s in (-1, 0, 1))
    return go({}, atoms)


def prove_false(facts, f, budget=4000):
    """facts contradict f."""
    facts = list(facts) + [f]
    facts, _ = inline_defs(facts, ())
    facts = expand(facts)
    atoms = sorted({a for r, x, y in facts for t in (x, y) for a in t.atoms()}, key=repr)
    left = [budget]

    def contradicts(c):
        for r, x, y in c.facts:
            if r == "<" and c.le(y, x) or r == "<=" and c.lt(y, x) or r == "!=" and c.le(x, y) and c.le(y, x):
                return True
            if r == "==" and (c.lt(x, y) or c.lt(y, x)):
                return True
            if r == "bool=":
                p, q = c.truth(x), c.truth(y)
                if p is not None and q is not None and p != q:
                    return True
        return False

    def go(signs, rest):
        c = Case(facts, signs)
        if not c.consistent() or contradicts(c):
            return True
        if not rest or left[0] <= 0:
            return False
        left[0] -= 1
        return all(go(dict(signs) | {rest[0]: s}, rest[1:]) for s in (-1, 0, 1))
    return go({}, atoms)


# the number of partial valuations refute() may still look at in this obligation
BUDGET = [1500000]


def refute(facts, claim, order=None, dom=(0, 1, -1, 2, -2, 3, -3), limit=400000):
    """A small integer valuation that satisfies the facts and falsifies claim (a function of the valuation), or None."""
    ts = [x for f in facts for x in f[1:]] + list(claim[1:])
    atoms = set()
    for t in ts:
        atoms |= t.atoms()
    atoms = sorted(atoms, key=lambda t: (order.index(t) if order and t in order else 99, repr(t)))
    cons = [(f, f[1].atoms() | f[2].atoms()) for f in facts]
    cnt = [0]
    env = {}

    limit = min(limit, BUDGET[0])

    def go(i):
        cnt[0] += 1
        if cnt[0] > limit:
            return None
        if i == len(atoms):
            return dict(env) if not holds(claim, env) else None
        for v in dom:
            env[atoms[i]] = v
            done = set(atoms[:i + 1])
            if all(holds(f, env) for f, fa in cons if atoms[i] in fa and fa <= done):
                r = go(i + 1)
                if r is not None:
                    return r
            del env[atoms[i]]
        return None
    r = go(0)
    BUDGET[0] -= min(cnt[0], limit)
    return r
