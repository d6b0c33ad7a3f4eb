"""Rewrite rules as data: what the rules of the simplifier say, read from the syntax tree, and whether both sides of one are
equal. Nothing of the library is run: a rule is a pair of terms over integer variables, and it is decided by partitioning
the values of its variables into cases in which both sides are linear and comparing the two linear forms in every case."""
import itertools
import re
from math import gcd

from .program import walk, show


class NotRule(Exception):
    """The construct is not one this reading of rules covers."""


class Undecided(Exception):
    pass


# ----------------------------------------------------------------------------------------------------------------- terms
# ('v', name) ('k', n) (op, a, b) for op in BIN, ('!', a) ('sel', c, t, f) ('abs', a) ('bool', a) ('opt', a, k)
# ('ssum', sign, a1, b1, c1, a2, b2, c2) ('is', predicate, a) ('inf',)

BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "min": "min", "max": "max", "less": "<",
       "less_equal": "<=", "equal": "==", "not_equal": "!=", "logical_and": "&&", "logical_or": "||"}
LETTERS = "xyzwuvt"


def text(t):
    k = t[0]
    if k == "v":
        return t[1]
    if k == "k":
        return str(t[1])
    if k in ("min", "max"):
        return "%s(%s, %s)" % (k, text(t[1]), text(t[2]))
    if k in BIN.values():
        return "(%s %s %s)" % (text(t[1]), k, text(t[2]))
    if k == "!":
        return "!" + text(t[1])
    if k == "sel":
        return "select(%s)" % ", ".join(map(text, t[1:]))
    if k == "opt":
        return "%s?" % text(t[1])
    if k == "stair":
        return "staircase(%s)" % ", ".join(map(text, t[1:]))
    if k == "ssum":
        return "staircase_sum_%s(%s)" % ("min" if t[1] < 0 else "max", ", ".join(map(text, t[2:])))
    if k == "is":
        return "%s(%s)" % (t[1], text(t[2]))
    if k == "inf":
        return "infinity"
    return "%s(%s)" % (k, ", ".join(map(text, t[1:])))


def variables(t, out=None):
    out = [] if out is None else out
    if t[0] == "v":
        if t[1] not in out:
            out.append(t[1])
    else:
        for a in t[1:]:
            if isinstance(a, tuple):
                variables(a, out)
    return out


def has(t, kind):
    return t[0] == kind or any(has(a, kind) for a in t[1:] if isinstance(a, tuple))


class Reader:
    """Builds terms from expressions over the pattern types, by looking into the functions that build the patterns."""

    def __init__(self, prog):
        self.prog = prog
        self.by = {}
        for f in prog.functions:
            if f.q.startswith("slinky::rewrite::") and f.body:
                self.by.setdefault((f.q, len(f.params)), {})[(f.file, f.line)] = f
        self.depth = 0

    def locals(self, f):
        out = {}
        for n in walk(f.body):
            if n.get("k") == "decl":
                for v in n.get("v", []):
                    if v.get("d") is not None:
                        out[v["d"]] = v
            # which operand an analysis result is about: mutate(op->a, &info)
            if n.get("k") in ("call", "opcall") and len(n.get("args") or []) == 2:
                a, b = n["args"]
                if a.get("k") in ("mem", "dmem") and a.get("n") in ("a", "b") and b.get("k") == "un" and b.get("op") == "&" \
                        and (b.get("e") or {}).get("k") == "ref":
                    out.setdefault("info", {}).setdefault(b["e"]["d"], set()).add(a["n"])
        return out

    def term(self, n, env, locs):
        """env: parameters to terms, while looking into a pattern builder."""
        k = n.get("k")
        t = (n.get("t") or "").replace("const ", "").strip(" &")
        if "cv" in n and k != "ref":
            return ("k", int(n["cv"]))
        if k == "ref":
            if n.get("d") in env:
                return env[n["d"]]
            m = re.match(r"slinky::rewrite::pattern_(wildcard|constant)<(\d+)>$", t)
            if m:
                i = int(m.group(2))
                return ("v", LETTERS[i] if m.group(1) == "wildcard" else "c%d" % i)
            if n.get("d") in locs and locs[n["d"]].get("init"):
                return self.term(locs[n["d"]]["init"], env, locs)
            if "cv" in n:
                return ("k", int(n["cv"]))
            raise NotRule("reference to " + str(n.get("n")))
        if k == "mem" and n.get("n") in ("modulus", "remainder"):
            b = n.get("b") or {}
            d = (b.get("b") or {}).get("d")
            ops = (locs.get("info") or {}).get(d, ())
            if b.get("n") != "alignment" or len(ops) != 1:
                raise NotRule("member " + n["n"])
            return ("v", "@%s.%s" % (list(ops)[0], n["n"]))
        if k in ("cast", "paren", "tmp"):
            return self.term(n["e"], env, locs)
        if k == "un" and n.get("op") == "-":
            a = self.term(n["e"], env, locs)
            return ("k", -a[1]) if a[0] == "k" else ("-", ("k", 0), a)
        if k == "un" and n.get("op") == "!":
            return ("!", self.term(n["e"], env, locs))
        if k == "bin" and n.get("op") in BIN.values():
            return (n["op"], self.term(n["L"], env, locs), self.term(n["R"], env, locs))
        if k == "ctor" and len(n.get("args", [])) == 1:
            return self.term(n["args"][0], env, locs)
        if k in ("call", "opcall"):
            fn = n.get("fn") or (n.get("callee") or {}).get("q") or ""
            if fn.startswith("std::numeric_limits"):
                if fn.endswith("::max"):
                    return ("k", 2**63 - 1)
                if fn.endswith("::min"):
                    return ("k", -2**63)
            if not fn.startswith("slinky::rewrite::"):
                raise NotRule("call of " + (fn or show(n)[:60]))
            return self.call(fn, n, [self.term(a, env, locs) for a in n.get("args", [])])
        raise NotRule("expression " + show(n)[:80])

    def builder(self, fn, n, nargs):
        c = list(self.by.get((fn, nargs), {}).values())
        if len(c) > 1:
            fid = n.get("fid")
            e = [f for f in c if f.fid == fid]
            c = e or c
        if len(c) != 1:
            raise NotRule("%d builders for %s" % (len(c), fn))
        return c[0]

    def call(self, fn, n, args):
        f = self.builder(fn, n, len(args))
        st = f.body.get("c", [])
        if self.depth > 8:
            raise NotRule("recursive builder " + fn)
        self.depth += 1
        try:
            env = {p["d"]: a for p, a in zip(f.params, args)}
            locs = self.locals(f)
            rets = [s for s in st if s.get("k") == "return"]
            if len(rets) != 1 or any(s.get("k") not in ("decl", "return") for s in st):
                raise NotRule("builder %s is not one expression" % fn)
            return self.built(rets[0]["e"], env, locs, n, fn)
        finally:
            self.depth -= 1

    def flat(self, n):
        """The elements of a braced initialiser."""
        if n.get("k") in ("dctor", "ctor", "ilist"):
            a = n.get("args") if n.get("k") != "ilist" else n.get("c")
            a = a or []
            if len(a) == 1 and a[0].get("k") == "ilist":
                return self.flat(a[0])
            return a
        return None

    def built(self, e, env, locs, site, fn):
        while e.get("k") == "cast" and "pattern_" not in str(e.get("to", "")):
            e = e["e"]
        t = (e.get("t") or "").replace("const ", "")
        m = re.match(r"(?:class |struct )?slinky::rewrite::(\w+)(?:<(.*)>)?$", t)
        if e.get("k") == "cast":
            e = e["e"]
        if e.get("k") in ("call", "opcall"):
            fq = e.get("fn") or (e.get("callee") or {}).get("q") or (e.get("callee") or {}).get("n") or ""
            if fq.split("::")[-1] == "make_predicate":
                a = self.term(e["args"][0], env, locs)
                p = e["args"][1]
                q = p.get("q") or ""
                if p.get("k") == "lambda":
                    q = "is_constant" if "constant" in str(p) else ""
                if not q:
                    raise NotRule("predicate of " + fn)
                return ("is", q.split("::")[-1], a)
            q = fq if "::" in fq else "slinky::rewrite::" + fq
            return self.call(q, e, [self.term(a, env, locs) for a in e.get("args", [])])
        if not m:
            return self.term(e, env, locs)
        name, targs = m.group(1), m.group(2) or ""
        els = self.flat(e)
        if els is None:
            raise NotRule("builder " + fn)
        if name == "pattern_call":
            q = els[0].get("q", "").split("::")[-1]
            rest = []
            for x in els[1:]:
                rest += [y for y in (self.flat(x) if x.get("k") in ("ilist", "dctor") else [x])]
            rest = [x for x in rest if not (x.get("k") == "ctor" and not x.get("args"))]
            args = [self.term(x, env, locs) for x in rest]
            if q == "abs" and len(args) == 1:
                return ("abs", args[0])
            if q == "and_then" and len(args) == 2:
                return ("&&",) + tuple(args)
            if q == "or_else" and len(args) == 2:
                return ("||",) + tuple(args)
            if q in ("positive_infinity", "negative_infinity", "indeterminate"):
                return ("inf", {"p": 1, "n": -1, "i": 0}[q[0]])
            raise NotRule("intrinsic " + q)
        if name == "pattern_optional":
            # may_be<k>(x): k is the explicit template argument of the call
            m = re.search(r"pattern_optional<.*, (-?\d+|true|false)>$", (site.get("t") or "").strip(" &"))
            if not m:
                raise NotRule("default of an optional operand")
            d = {"true": 1, "false": 0}.get(m.group(1))
            return ("opt", self.term(els[0], env, locs), int(m.group(1)) if d is None else d)
        args = [self.term(x, env, locs) for x in els]
        if name == "pattern_binary":
            op = targs.split(",")[0].replace("class ", "").strip().split("::")[-1]
            if op not in BIN or len(args) != 2:
                raise NotRule("binary pattern " + targs)
            return (BIN[op],) + tuple(args)
        if name == "pattern_unary":
            if "logical_not" not in targs.split(",")[0]:
                raise NotRule("unary pattern " + targs)
            return ("!", args[0])
        if name == "pattern_select":
            return ("sel",) + tuple(args)
        if name == "pattern_staircase":
            return ("stair",) + tuple(args)
        if name == "replacement_eval":
            return args[0]
        if name == "replacement_boolean":
            return ("bool", args[0])
        if name == "replacement_staircase_sum_bound":
            if args[6][0] != "k" or args[6][1] == 0:
                raise NotRule("side of a staircase bound")
            return ("ssum", args[6][1]) + tuple(args[:6])
        raise NotRule("builder of " + name)


def plain(t):
    """The term with the optional operands present."""
    if t[0] == "opt":
        return plain(t[1])
    return tuple(plain(a) if isinstance(a, tuple) else a for a in t)


def versions(t):
    """All readings of a pattern: (term, {variable: default}) for every choice of absent optional operands. An operation
    whose optional operand is absent is just its other operand."""
    k = t[0]
    if k in ("v", "k", "inf"):
        return [(t, {})]
    if k == "opt":
        return versions(t[1])     # an optional operand elsewhere than in an operation is never absent
    parts = [versions(a) if isinstance(a, tuple) else [(a, {})] for a in t[1:]]
    out = []
    for c in itertools.product(*parts):
        b = {}
        for _, e in c:
            b.update(e)
        out.append(((k,) + tuple(x for x, _ in c), b))
    if k in BIN.values() and len(t) == 3:
        for i in (1, 2):
            o = t[i]
            if o[0] == "opt" and o[1][0] == "v":
                for x, b in versions(t[3 - i]):
                    b = dict(b)
                    if b.get(o[1][1], o[2]) == o[2]:
                        b[o[1][1]] = o[2]
                        out.append((x, b))
    return out


# ----------------------------------------------------------------------------------------------------------- linear forms
# a polynomial is a dict from monomials (sorted tuples of names) to integers

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pk(k):
    return {(): k} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            v = r.get(q, 0) + c * d
            if v:
                r[q] = v
            else:
                r.pop(q, None)
    return r


def is_k(a):
    return not a or (len(a) == 1 and () in a)


def kval(a):
    return a.get((), 0)


def psub(p, s):
    """p with the variables of s replaced."""
    if not s:
        return p
    r = {}
    for m, c in p.items():
        if not any(v in s for v in m):
            r = padd(r, {m: c})
            continue
        q = {(): c}
        for v in m:
            q = pmul(q, s[v] if v in s else {(v,): 1})
        r = padd(r, q)
    return r


def tight(p):
    """p >= 0 over the integers, normalised. True / False when it is constant."""
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, abs(c))
    if g == 0:
        return kval(p) >= 0
    if g == 1:
        return p
    r = {m: c // g for m, c in p.items() if m}
    k = kval(p) // g
    if k:
        r[()] = k
    return r


LIMIT = 250


def reduce(cons):
    best = {}
    for p in cons:
        t = tight(p)
        if t is True:
            continue
        if t is False:
            return None
        key = tuple(sorted((m, c) for m, c in t.items() if m))
        k = t.get((), 0)
        if key not in best or k < best[key]:
            best[key] = k
    # opposite sides that contradict
    for key, k in best.items():
        neg = tuple((m, -c) for m, c in key)
        if neg in best and k + best[neg] < 0:
            return None
    return best


def empty(cons, depth=0):
    """True when no integer point satisfies all p >= 0 (decided by elimination; monomials are independent unknowns)."""
    best = reduce(cons)
    while True:
        if best is None:
            return True
        if not best or len(best) > LIMIT:
            return False
        cnt = {}
        for key in best:
            for m, c in key:
                a = cnt.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        # a variable bounded on one side only disappears with its constraints
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
        pos, neg, rest = [], [], []
        for key, k in best.items():
            d = dict(key)
            c = d.get(m, 0)
            d[()] = k
            (pos if c > 0 else neg if c < 0 else rest).append((c, d))
        out = [d for _, d in rest]
        for c, d in pos:
            for e, f in neg:
                g = gcd(c, -e)
                p = padd({x: y * (-e // g) for x, y in d.items()}, {x: y * (c // g) for x, y in f.items()})
                p.pop(m, None)
                out.append({x: y for x, y in p.items() if y})
        best = reduce(out)


class Path:
    __slots__ = ("cons", "sub", "divs", "n")

    def __init__(self, cons=(), sub=None, divs=(), n=0):
        self.cons, self.sub, self.divs, self.n = cons, sub or {}, divs, n

    def add(self, p):
        """The path on which p >= 0, or None."""
        p = psub(p, self.sub)
        t = tight(p)
        if t is True:
            return self
        if t is False:
            return None
        c = self.cons + (t,)
        if empty(c):
            return None
        return Path(c, self.sub, self.divs, self.n)

    def eq(self, p):
        p = psub(p, self.sub)
        if is_k(p):
            return self if not kval(p) else None
        for m, c in sorted(p.items()):
            if len(m) == 1 and abs(c) == 1 and not any(m[0] in o and o != m for o in p):
                r = {x: (-y if c == 1 else y) for x, y in p.items() if x != m}
                one = {m[0]: r}
                s = {v: psub(q, one) for v, q in self.sub.items()}
                s[m[0]] = r
                cons = []
                for q in self.cons:
                    t = tight(psub(q, one))
                    if t is False:
                        return None
                    if t is not True:
                        cons.append(t)
                if empty(cons):
                    return None
                return Path(tuple(cons), s, tuple((psub(b, one), k, q) for b, k, q in self.divs), self.n)
        g = 0
        for m, c in p.items():
            if m:
                g = gcd(g, abs(c))
        if kval(p) % g:
            return None
        a = self.add(p)
        return a.add({m: -c for m, c in p.items()}) if a else None


NEG = lambda p: {m: -c for m, c in p.items()}


class Eval:
    """Both sides of a rule, over all paths. The budget bounds the number of cases of one rule."""

    def __init__(self, budget=20000):
        self.left = budget

    def spend(self):
        self.left -= 1
        if self.left < 0:
            raise Undecided("too many cases")

    def factored(self, d, p):
        """Cases (sign of the factor, cofactor) when the nonlinear d has a common factor."""
        d = psub(d, p.sub)
        if all(len(m) < 2 for m in d) or () in d:
            return None
        com = None
        for m in d:
            com = set(m) if com is None else com & set(m)
        if not com:
            return None
        v = sorted(com)[0]
        q = {}
        for m, c in d.items():
            l = list(m)
            l.remove(v)
            q[tuple(l)] = c
        return v, q

    def ge(self, d, p):
        """d >= 0: [(truth, path)]"""
        self.spend()
        f = self.factored(d, p)
        if f:
            v, q = f
            out = []
            z = p.eq({(v,): 1})
            if z:
                out.append((True, z))
            g = p.add({(v,): 1, (): -1})
            if g:
                out += self.ge(q, g)
            l = p.add({(v,): -1, (): -1})
            if l:
                out += self.ge(NEG(q), l)
            return out
        out = []
        a = p.add(d)
        if a:
            out.append((True, a))
        if a is not p:
            b = p.add(padd(NEG(d), pk(-1)))
            if b:
                out.append((False, b))
        return out

    def eq(self, d, p):
        self.spend()
        f = self.factored(d, p)
        if f:
            v, q = f
            out = []
            z = p.eq({(v,): 1})
            if z:
                out.append((True, z))
            for s in (1, -1):
                g = p.add({(v,): s, (): -1})
                if g:
                    out += self.eq(q, g)
            return out
        out = []
        a = p.eq(d)
        if a:
            out.append((True, a))
        if a is not p:
            for q in (padd(d, pk(-1)), padd(NEG(d), pk(-1))):
                b = p.add(q)
                if b:
                    out.append((False, b))
        return out

    def quot(self, a, k, p):
        """a / |k| rounded down: (form, path)"""
        k = abs(k)
        a = psub(a, p.sub)
        q, b = {}, {}
        for m, c in a.items():
            if c // k:
                q[m] = c // k
            if c % k:
                b[m] = c % k
        if is_k(b):
            return q, p
        for x, kk, v in p.divs:
            if kk == k and x == b:
                return padd(q, {(v,): 1}), p
        v = "q%d" % p.n
        p = Path(p.cons, p.sub, p.divs + ((b, k, v),), p.n + 1)
        p = p.add(padd(b, {(v,): -k}))
        if p:
            p = p.add(padd(NEG(b), {(v,): k, (): k - 1}))
        return padd(q, {(v,): 1}), p

    def val(self, t, p):
        self.spend()
        k = t[0]
        if k == "v":
            return [(psub({(t[1],): 1}, p.sub), p)]
        if k == "k":
            return [(pk(t[1]), p)]
        if k in ("<", "<=", "==", "!=", "&&", "||", "!", "bool", "is"):
            return [(pk(1 if b else 0), q) for b, q in self.truth(t, p)]
        if k == "sel":
            out = []
            for b, q in self.truth(t[1], p):
                out += self.val(t[2] if b else t[3], q)
            return out
        if k == "abs":
            out = []
            for a, q in self.val(t[1], p):
                for b, r in self.ge(a, q):
                    a2 = psub(a, r.sub)
                    out.append((a2 if b else NEG(a2), r))
            return out
        if k == "stair":
            return self.val(("*", ("/", ("+", t[1], t[2]), t[3]), t[4]), p)
        if k in BIN.values():
            out = []
            for a, q in self.val(t[1], p):
                for b, r in self.val(t[2], q):
                    a1 = psub(a, r.sub)
                    if k == "+":
                        out.append((padd(a1, b), r))
                    elif k == "-":
                        out.append((padd(a1, b, -1), r))
                    elif k == "*":
                        out.append((pmul(a1, b), r))
                    elif k in ("/", "%"):
                        if not is_k(b):
                            raise Undecided("divisor " + text(t[2]))
                        d = kval(b)
                        if d == 0:
                            out.append(({}, r))
                            continue
                        f, s = self.quot(a1, d, r)
                        if s is None:
                            continue
                        if k == "/":
                            out.append((f if d > 0 else NEG(f), s))
                        else:
                            out.append((padd(a1, f, -abs(d)), s))
                    else:   # min, max
                        for c, s in self.ge(padd(b, a1, -1), r):
                            out.append((psub(a1 if c == (k == "min") else b, s.sub), s))
            return out
        raise Undecided("term " + text(t))

    def truth(self, t, p):
        self.spend()
        k = t[0]
        if k == "k":
            return [(t[1] != 0, p)]
        if k == "!":
            return [(not b, q) for b, q in self.truth(t[1], p)]
        if k == "bool":
            return self.truth(t[1], p)
        if k in ("&&", "||"):
            out = []
            for b, q in self.truth(t[1], p):
                if b == (k == "||"):
                    out.append((b, q))
                else:
                    out += self.truth(t[2], q)
            return out
        if k in ("<", "<=", "==", "!="):
            out = []
            for a, q in self.val(t[1], p):
                for b, r in self.val(t[2], q):
                    d = padd(b, psub(a, r.sub), -1)
                    if k == "<":
                        out += self.ge(padd(d, pk(-1)), r)
                    elif k == "<=":
                        out += self.ge(d, r)
                    else:
                        out += [(c == (k == "=="), s) for c, s in self.eq(d, r)]
            return out
        out = []
        for a, q in self.val(t, p):
            out += [(not b, r) for b, r in self.eq(a, q)]
        return out

    # -- conditions of replacements: what may be concluded from them being true
    def holds(self, t, p):
        """The paths on which the condition may be true. What is not understood is left out of them: more paths, never fewer."""
        k = t[0]
        if k == "&&":
            out = []
            for q in self.holds(t[1], p):
                out += self.holds(t[2], q)
            return out
        if k == "||":
            return self.holds(t[1], p) + self.holds(t[2], p)
        if k == "is":
            return self.assume(t[1], t[2], p)
        if k == "!":
            return self.fails(t[1], p)
        if has(t, "is"):
            return [p]
        return [q for b, q in self.truth(t, p) if b]

    def fails(self, t, p):
        """The paths on which the condition may be false."""
        k = t[0]
        if k == "&&":
            return self.fails(t[1], p) + self.fails(t[2], p)
        if k == "||":
            out = []
            for q in self.fails(t[1], p):
                out += self.fails(t[2], q)
            return out
        if k == "!":
            return self.holds(t[1], p)
        if has(t, "is") or has(t, "ssum"):
            return [p]
        return [q for b, q in self.truth(t, p) if not b]

    def assume(self, name, a, p):
        if name in ("is_constant", "is_finite"):
            return [p]
        out = []
        for v, q in self.val(a, p):
            if name == "is_zero":
                out += [q.eq(v)]
            elif name == "is_boolean":
                out += [q.eq(v), q.eq(padd(v, pk(-1)))]
            elif name == "is_non_positive":
                out += [q.add(NEG(v))]
            elif name == "is_non_negative":
                out += [q.add(v)]
            else:
                return [p]
        return [q for q in out if q]


# ------------------------------------------------------------------------------------------------------------- one point

def ev(t, e):
    """The value of a term at a point."""
    k = t[0]
    if k == "v":
        return e[t[1]]
    if k == "k":
        return t[1]
    if k == "sel":
        return ev(t[2], e) if ev(t[1], e) else ev(t[3], e)
    if k == "!":
        return int(not ev(t[1], e))
    if k == "bool":
        return int(ev(t[1], e) != 0)
    if k == "abs":
        return abs(ev(t[1], e))
    if k == "stair":
        return ev(("*", ("/", ("+", t[1], t[2]), t[3]), t[4]), e)
    if k == "is":
        v = ev(t[2], e)
        if t[1] == "is_zero":
            return int(v == 0)
        if t[1] == "is_boolean":
            return int(v in (0, 1))
        if t[1] == "is_non_positive":
            return int(v <= 0)
        if t[1] == "is_non_negative":
            return int(v >= 0)
        if t[1] == "is_constant":
            return int(t[2][0] == "k" or (t[2][0] == "v" and t[2][1][0] == "c"))
        if t[1] == "is_finite":
            return int(abs(v) != float("inf"))
        raise Undecided("condition " + t[1])
    if k == "inf":
        if not t[1]:
            raise ArithmeticError
        return t[1] * float("inf")
    if k == "ssum":
        a1, b1, c1, a2, b2, c2 = (ev(a, e) for a in t[2:])
        if not (abs(b1) == 1 and abs(b2) == 1 and c1 * b1 + c2 * b2 == 0):
            raise Undecided("bound of staircases")
        return a1 * b1 * c1 + a2 * b2 * c2
    a, b = ev(t[1], e), ev(t[2], e)
    if k in "+-*/%" and (isinstance(a, float) or isinstance(b, float)):
        return beyond(k, a, b)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k in ("/", "%"):
        if b == 0:
            return 0
        r = a % abs(b)
        return r if k == "%" else (a - r) // b
    return {"min": min(a, b), "max": max(a, b), "<": int(a < b), "<=": int(a <= b), "==": int(a == b), "!=": int(a != b),
            "&&": int(bool(a) and bool(b)), "||": int(bool(a) or bool(b))}[k]


def beyond(k, a, b):
    """Arithmetic with an infinite operand; ArithmeticError where it means nothing."""
    inf = float("inf")
    if k in "+-":
        r = a + b if k == "+" else a - b
    elif k == "*":
        r = a * b
    elif k == "/":
        if abs(b) == inf:
            if abs(a) == inf:
                raise ArithmeticError
            return 0
        if b == 0:
            raise ArithmeticError
        r = a * (1 if b > 0 else -1)
    else:
        raise ArithmeticError
    if r != r:
        raise ArithmeticError
    return r


# ------------------------------------------------------------------------------------------------------------- deciding

class Rule:
    def __init__(self, pattern, repls, line, file, where):
        self.pattern, self.repls, self.line, self.file, self.where = pattern, repls, line, file, where   # repls: [(term, condition or None)]

    def name(self):
        return text(plain(self.pattern))


def instantiated(terms):
    """The variables that have to be numbers for the rest to be linear."""
    inst = []

    def add(v):
        if v not in inst:
            inst.append(v)

    def div(t):
        if t[0] in ("/", "%"):
            for v in variables(t[2]):
                add(v)
        if t[0] == "stair":
            for v in variables(t[3]):
                add(v)
        if t[0] == "ssum":
            for i in (3, 6):
                for v in variables(t[i]):
                    add(v)
        for a in t[1:]:
            if isinstance(a, tuple):
                div(a)

    def mul(t):
        sides = None
        if t[0] == "*":
            sides = t[1], t[2]
        elif t[0] == "stair":
            sides = t[1], t[4]
        elif t[0] == "ssum":
            for i in (4, 7):
                for v in variables(t[i]):
                    add(v)
        if sides:
            a, b = ([v for v in variables(s) if v not in inst] for s in sides)
            if a and b:
                cb, ca = all(v[0] == "c" for v in b), all(v[0] == "c" for v in a)
                if cb:
                    for v in b:
                        add(v)
                elif ca:
                    for v in a:
                        add(v)
        for x in t[1:]:
            if isinstance(x, tuple):
                mul(x)

    for t in terms:
        div(t)
        for v in variables(t):
            if v[0] == "@" and v.endswith(".modulus"):
                add(v)
    for t in terms:
        mul(t)
    return inst


RANGE = {0: [], 1: range(-8, 9), 2: range(-6, 7), 3: range(-3, 4), 4: (-2, -1, 1, 2, 3), 5: (-2, -1, 1, 2)}
DEEP = {0: [], 1: range(-24, 25), 2: range(-12, 13), 3: range(-6, 7), 4: (-3, -2, -1, 0, 1, 2, 3), 5: (-2, -1, 0, 1, 2, 3)}
BIG = 2**62


def subst(t, e):
    if t[0] == "v":
        return ("k", e[t[1]]) if t[1] in e else t
    return tuple(subst(a, e) if isinstance(a, tuple) else a for a in t)


def absorb(t, p, ev_, stairs, cache):
    """Replaces the staircase bounds in a condition by unknowns that lie on the right side of the sum at every x."""
    if t[0] == "ssum":
        if t in cache:
            return cache[t], p
        v = "s%d" % len(cache)
        cache[t] = ("v", v)
        sign, a1, b1, c1, a2, b2, c2 = t[1:]
        for x in stairs:
            s = ("+", ("stair", x, a1, b1, c1), ("stair", x, a2, b2, c2))
            vals = ev_.val(s, p)
            if len(vals) != 1:
                raise Undecided("staircase sum")
            f, p = vals[0]
            p = p.add(padd(f, {(v,): -1}) if sign < 0 else padd(NEG(f), {(v,): 1}))
            if p is None:
                return cache[t], None
        return cache[t], p
    out = [t[0]]
    for a in t[1:]:
        if isinstance(a, tuple):
            a, p = absorb(a, p, ev_, stairs, cache)
            if p is None:
                return t, None
        out.append(a)
    return tuple(out), p


def stair_args(t, out):
    if t[0] == "stair" and t[1] not in out:
        out.append(t[1])
    for a in t[1:]:
        if isinstance(a, tuple):
            stair_args(a, out)
    return out


def split(p, ev_, d):
    """No case is left in which d != 0: True, or the paths that remain."""
    left = []
    for q in (padd(d, pk(-1)), padd(NEG(d), pk(-1))):
        left += [r for b, r in ev_.ge(q, p) if b]
    return left


def remainders(p, depth=0):
    """The paths, with the remainders of small divisors told apart; those that turn out to be empty are gone."""
    for i, (b, k, q) in enumerate(p.divs):
        if k <= 6 and depth < 3:
            out = []
            base = Path(p.cons, p.sub, p.divs[:i] + p.divs[i + 1:], p.n)
            for r in range(k):
                s = base.eq(padd(padd(b, {(q,): -k}), pk(-r)))
                if s:
                    out += remainders(s, depth + 1)
            return out
    return [p]


def decide(rule, index, fallthrough_ok, deep=False, free=False):
    """('ok', None) | ('bad', point) | ('undecided', why) for one replacement of a rule."""
    repl, cond = rule.repls[index]
    earlier = [c for _, c in rule.repls[:index] if c is not None] if fallthrough_ok else []
    why, misses = None, 0
    if any(t is not None and has(t, "inf") for t in (rule.pattern, repl, cond)):
        return extended(rule, repl, cond, earlier)
    try:
        for pat, defaults in versions(rule.pattern):
            e0 = {v: ("k", k) for v, k in defaults.items()}
            d0 = {v: k for v, k in defaults.items()}
            lhs, rhs = subst(pat, d0), subst(plain(repl), d0)
            cnd = subst(plain(cond), d0) if cond is not None else None
            prev = [subst(plain(c), d0) for c in earlier]
            terms = [lhs, rhs] + ([cnd] if cnd else []) + prev
            vs = []
            for t in terms:
                variables(t, vs)
            unbound = [v for v in variables(rhs) if v not in variables(lhs) and v[0] != "@"]
            if unbound and not free:
                return "bad", {"unbound": unbound}
            inst = instantiated(terms)
            ranges = (DEEP if deep else RANGE).get(len(inst))
            if ranges is None:
                raise Undecided("%d multipliers" % len(inst))
            rs = [[r for r in ranges if r >= 0] if v[0] == "@" else ranges for v in inst]
            for pt in itertools.product(*rs):
                e = dict(zip(inst, pt))
                try:
                    w = case(subst(lhs, e), subst(rhs, e), subst(cnd, e) if cnd else None, [subst(c, e) for c in prev],
                             {v: e.get("@%s.modulus" % v) for v in "ab" if any(x.startswith("@" + v) for x in vs)})
                except Undecided as ex:
                    why = why or str(ex)
                    misses += 1
                    if misses > 400:
                        break
                    continue
                if w is not None:
                    w.update(e)
                    w.update(d0)
                    return "bad", w
    except Undecided as ex:
        why = why or str(ex)
    if why:
        w = search(rule, index, earlier)
        return ("bad", w) if w else ("undecided", why)
    return "ok", None


def starts(terms, vs):
    p = Path()
    big = any(has_big(t) for t in terms)
    if big:
        for v in vs:
            p = p.add({(v,): 1, (): 2**63})
            p = p.add({(v,): -1, (): 2**63 - 1})
    return p


def has_big(t):
    return (t[0] == "k" and abs(t[1]) > BIG) or any(has_big(a) for a in t[1:] if isinstance(a, tuple))


def case(lhs, rhs, cnd, prev, aligned={}):
    """None, or a point at which the sides differ. Undecided when neither is established."""
    ev_ = Eval()
    if cnd is not None and cnd[0] == "k" and not cnd[1]:
        return None
    vs = []
    for t in [lhs, rhs] + ([cnd] if cnd else []) + prev:
        variables(t, vs)
    p0 = starts([lhs, rhs], vs)
    paths = [p0]
    for o, m in aligned.items():
        # the operand is m*k + remainder, with 0 <= remainder < m unless m is zero
        r = {("@%s.remainder" % o,): 1}
        nxt = []
        for p in paths:
            for v, q in ev_.val(lhs[1] if o == "a" else lhs[2], p):
                q = q.eq(padd(padd(v, r, -1), {("@k" + o,): m} if m else {}, -1))
                if q and m:
                    q = q.add(r)
                if q and m:
                    q = q.add(padd(pk(m - 1), r, -1))
                if q:
                    nxt.append(q)
        paths = nxt
    c2 = cnd
    if cnd is not None and has(cnd, "ssum"):
        c2, p = absorb(cnd, paths[0], ev_, stair_args(lhs, []), {})
        paths = [p] if p else []
    if c2 is not None:
        paths = [q for p in paths for q in ev_.holds(c2, p)]
    for c in prev:
        paths = [q for p in paths for q in ev_.fails(c, p)]
    missed = 0
    for p in paths:
        for l, q in ev_.val(lhs, p):
            for r, s in ev_.val(rhs, q):
                d = psub(padd(l, r, -1), s.sub)
                if not d:
                    continue
                for f in split(s, ev_, d):
                    for g in remainders(f):
                        w = inside(g, vs, lhs, rhs, cnd, prev)
                        if w is not None:
                            return w
                        missed += 1
                        if missed > 12:
                            raise Undecided("sides differ in a case that was not shown to be empty")
    if missed:
        raise Undecided("sides differ in a case that was not shown to be empty")
    return None


NEAR = [0] + [s * i for i in range(1, 14) for s in (1, -1)]


def inside(p, vs, lhs, rhs, cnd, prev):
    """An integer point of the case at which the sides differ, or None when none was found."""
    left = [60]

    def go(p, i, e):
        if left[0] <= 0:
            return None
        if i == len(vs):
            left[0] -= 1
            try:
                return e if at(lhs, rhs, cnd, prev, e) else None
            except Undecided:
                left[0] = 0
                return None
        f = psub({(vs[i],): 1}, p.sub)
        if is_k(f):
            return go(p, i + 1, dict(e, **{vs[i]: kval(f)}))
        for v in NEAR:
            q = p.eq(padd(f, pk(-v)))
            if q:
                w = go(q, i + 1, dict(e, **{vs[i]: v}))
                if w is not None or left[0] <= 0:
                    return w
        left[0] -= 1
        return None

    return go(p, 0, {})


def extended(rule, repl, cond, earlier):
    """A rule about infinities: every operand is one of finitely many representatives of its sign, infinities included."""
    inf = float("inf")
    n = 0
    for pat, defaults in versions(rule.pattern):
        ts = [subst(t, defaults) if t is not None else None for t in [pat, plain(repl), plain(cond) if cond else None]]
        prev = [subst(plain(c), defaults) for c in earlier]
        vs = []
        for t in ts + prev:
            if t is not None:
                variables(t, vs)
        if any(v[0] == "@" for v in vs) or len(vs) > 4:
            return "undecided", "infinite values"
        vals = [(-2, -1, 0, 1, 2) if v[0] == "c" else (-inf, -2, -1, 0, 1, 2, inf) for v in vs]
        for pt in itertools.product(*vals):
            e = dict(zip(vs, pt))
            try:
                if ts[2] is not None and not ev(ts[2], e):
                    continue
                if any(ev(c, e) for c in prev):
                    continue
                l, r = ev(ts[0], e), ev(ts[1], e)
            except ArithmeticError:
                continue
            except Undecided as ex:
                return "undecided", str(ex)
            n += 1
            if l != r:
                return "bad", e
    return "ok", None


def at(lhs, rhs, cnd, prev, e):
    """The point e refutes lhs == rhs under the conditions."""
    if cnd is not None and not ev(cnd, e):
        return False
    if any(ev(c, e) for c in prev):
        return False
    return ev(lhs, e) != ev(rhs, e)


def point(p, lhs, rhs, cnd, prev):
    vs = []
    for t in [lhs, rhs] + ([cnd] if cnd else []) + list(prev):
        variables(t, vs)
    seed = 12345
    val = (0, 1, -1, 2, -2, 3, -3, 5, -5, 8, -8, 13)
    n = 0
    if len(val[:7]) ** len(vs) <= 3000:
        it = itertools.product(val[:7], repeat=len(vs))
    else:
        it = (None for _ in range(3000))
    for c in it:
        if c is None:
            c = []
            for _ in vs:
                seed = (seed * 1103515245 + 12345) & 0x7FFFFFFF
                c.append(val[(seed >> 12) % len(val)])
        e = dict(zip(vs, c))
        try:
            if at(lhs, rhs, cnd, prev, e):
                return e
        except Undecided:
            return None
    return None


def search(rule, index, earlier):
    """A point at which an undecided replacement is wrong."""
    repl, cond = rule.repls[index]
    for pat, defaults in versions(rule.pattern):
        lhs, rhs = subst(pat, defaults), subst(plain(repl), defaults)
        cnd = subst(plain(cond), defaults) if cond is not None else None
        prev = [subst(plain(c), defaults) for c in earlier]
        if any(v[0] == "@" for t in [lhs, rhs] + ([cnd] if cnd else []) for v in variables(t)):
            return None
        w = point(None, lhs, rhs, cnd, prev)
        if w:
            w.update(defaults)
            return w
    return None


def find(prog):
    """Every rule written down in the library: calls whose first argument is a pattern and that go to something that applies
    it. Returns rules and, for what could not be read, (file, line, why)."""
    rd = Reader(prog)
    rules, unread, seen = [], [], set()
    for f in prog.functions:
        if not f.body or "/test" in f.file or f.q.startswith("slinky::rewrite::"):
            continue
        locs = None
        for n in walk(f.body):
            if n.get("k") not in ("call", "opcall"):
                continue
            a = n.get("args") or []
            if n.get("k") == "call" and n.get("op") == "()" and a:
                a = a[1:]
            if len(a) < 2:
                continue
            t = (a[0].get("t") or "").replace("const ", "")
            fn = n.get("fn") or ""
            if not re.match(r"slinky::rewrite::pattern_", t) or (fn.startswith("slinky::rewrite::") and not fn.endswith("operator()")):
                continue
            key = (f.file, n.get("l"), show(a[0]))
            if key in seen:
                continue
            seen.add(key)
            if locs is None:
                locs = rd.locals(f)
            try:
                ts = [rd.term(x, {}, locs) for x in a]
            except NotRule as ex:
                unread.append((f.file, n.get("l"), "%s: %s" % (f.q.split("::")[-1], ex)))
                continue
            rs = []
            for i in range(1, len(ts), 2):
                rs.append((ts[i], ts[i + 1] if i + 1 < len(ts) else None))
            rules.append(Rule(ts[0], rs, n.get("l"), f.file, f.q.split("::")[-1]))
    return rules, unread
