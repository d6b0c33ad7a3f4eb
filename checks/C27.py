"""C27: the simplifier's rewrites preserve the value of the expression."""
import multiprocessing
import os
import re

from sa import folds as F, rules as R
from sa.overflow import plain
from sa.program import Program, AnalysisBroken, walk, walk_fn, show

LEVEL = "other"
EXPLANATION = ("Every rewrite rule (pattern, replacement, predicate) is read from the source as a pair of integer functions and a "
               "condition, and the two are compared over all integers: divisors and multipliers take each value of a small range, "
               "everything else is symbolic, split into cases at every min, max, comparison and remainder, and every case in "
               "which the sides differ has to be empty. The functions that apply rules, match patterns, build replacements and fold "
               "operations over constants are interpreted over all their paths, and the expression that comes out has to have "
               "the value of the operation that went in.")

COMMUTES = ("add", "mul", "min", "max", "equal", "not_equal", "logical_and", "logical_or")


class Matching(F.Folds):
    """Folds, for the dependent bodies of rewrite.h with their pattern types kept opaque."""

    def __init__(self, prog, hooks=None, types=None, consts=None, commutes=None):
        super().__init__(prog, hooks, types)
        self.consts = consts or {}
        self.commutes = commutes
        self.names = {}        # template parameters to operations

    def ev(self, n, s):
        k = n.get("k")
        if k in ("ref", "dref") and n.get("n") in self.consts and n.get("d") not in s.env:
            return [(s, ("t", ("k", self.consts[n["n"]])))]
        if k == "dref" and n.get("n") == "could_commute":
            return [(s, ("free",) if self.commutes else ("t", ("k", 0)))]
        if k == "un" and n.get("op") in ("++", "--"):
            return [(x, ("free",)) for x, _ in self.ev(n["e"], s)]
        if subscript(n):
            key = ("at", show(n))
            return [(s, s.env.get(key, ("t", ("v", show(n)))))]
        if k == "mem" and n.get("q", "").startswith("slinky::rewrite::match_context::"):
            return [(s, ("free",))]
        return super().ev(n, s)

    def call(self, n, s):
        if "dobj" in n and "obj" not in n:
            n = dict(n, obj=n["dobj"])
            if n.get("fn") == "as" and n.get("ta") in self.names:
                n["fid"] = "as<%s>" % self.names[n["ta"]]
        return super().call(n, s)

    def op(self, op, a, b):
        if a[0] == "free" or b[0] == "free":
            return ("free",)
        if a[0] == "t" == b[0] and a[1][0] == "k" == b[1][0]:
            f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "<<": lambda x, y: x << y, "+": lambda x, y: x + y}.get(op)
            if f:
                return ("t", ("k", f(a[1][1], b[1][1])))
        return super().op(op, a, b)

    def assign(self, L, Rn, s):
        while L.get("k") == "paren":
            L = L["e"]
        if subscript(L):
            out = []
            for x, v in self.ev(Rn, s):
                y = x.copy()
                y.env[("at", show(L))] = v
                y.env["stored"] = True
                out.append((y, v))
            return out
        return super().assign(L, Rn, s)


def subscript(n):
    return n.get("k") in ("index", "sub", "idx") or n.get("op") == "[]"


def matches(fo, n, s):
    """A call of match: when it holds, the operand has the value of the pattern."""
    out = []
    for x, vs in fo.evs((n.get("args") or [])[:2], s):
        if vs[0][0] != "t" or vs[1][0] != "t":
            out.append((x, ("x", "match of something else")))
            continue
        out.append((x.fact(("==", vs[0][1], vs[1][1])), ("t", ("k", 1))))
        out.append((x, ("t", ("k", 0))))
    return out


def binary_matches(T):
    def h(fo, n, s):
        a = n.get("args") or []
        out = []
        for x, vs in fo.evs(a[:3], s):
            if vs[0][0] != "rec" or vs[1][0] != "t" or vs[2][0] != "t":
                out.append((x, ("x", "match_binary of something else")))
                continue
            fa, fb = (F_term(vs[0][1].get(i)) for i in ("a", "b"))
            out.append((x.fact(("==", F.node(T, [fa, fb]), F.node(T, [vs[1][1], vs[2][1]]))), ("t", ("k", 1))))
            out.append((x, ("t", ("k", 0))))
        return out
    return h


def F_term(v):
    if not v or v[0] != "t":
        raise F.Unread("operand")
    return v[1]


def constant_get(fo, n, s):
    if not (n.get("fn") or "").startswith("slinky::constant") and (n.get("callee") or {}).get("n") != "get":
        return None
    a = n.get("args") or []
    if len(a) != 1 or n.get("obj"):
        return None
    return [(x, v) for x, v in fo.ev(a[0], s)]


def substituted(fo, n, s):
    out = []
    for x, v in fo.ev(n["args"][0], s):
        out.append((x, v if v[0] == "t" else ("x", "substitution")))
    return out


def eliminate(spec, got, facts):
    """Equalities that define a variable are applied to the rest, so that products of unknowns cancel where they can."""
    facts = [("==", f[1], f[2]) if f[0] == "same" else f for f in facts]
    for _ in range(40):
        for i, f in enumerate(facts):
            if f[0] != "==":
                continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if a[0] == "v" and a[1] not in R.variables(b):
                    sub = lambda t: replace(t, a[1], b)
                    spec, got = sub(spec), sub(got)
                    facts = [sub(g) for j, g in enumerate(facts) if j != i]
                    break
            else:
                continue
            break
        else:
            return spec, got, facts
    return spec, got, facts


def replace(t, v, b):
    if t[0] == "v":
        return b if t[1] == v else t
    return tuple(replace(a, v, b) if isinstance(a, tuple) else a for a in t)


def same_value(spec, got, facts, deep):
    spec, got, facts = eliminate(spec, got, facts)
    facts = [f for f in facts if not (f[0] == "==" and f[1] == f[2])]

    def eq(a, b):
        if a == b:
            return True
        if a[0] == b[0] and a[0] not in ("v", "k") and len(a) == len(b) and all(
                isinstance(x, tuple) and isinstance(y, tuple) and eq(x, y) for x, y in zip(a[1:], b[1:])):
            return True
        try:
            return F.judge(a, b, facts, deep)[0] == "ok"
        except (R.Undecided, R.NotRule):
            return False

    # a fact that relates an unfolded operation to another may be what is wanted, after its sides are matched up
    if eq(spec, got):
        return "ok", None
    for f in facts:
        if f[0] == "==" and ((eq(f[1], spec) and eq(f[2], got)) or (eq(f[2], spec) and eq(f[1], got))):
            return "ok", None
    try:
        return F.judge(spec, got, facts, deep)
    except (R.Undecided, R.NotRule) as ex:
        return "undecided", str(ex)


# ------------------------------------------------------------------------------------------------------------------- rules

def job(a):
    i, j, ok, deep = a
    try:
        return i, j, R.decide(RULES[i], j, ok, deep)
    except RecursionError:
        return i, j, ("undecided", "recursion")


def the_rules(res, prog, tier):
    global RULES
    RULES, unread = R.find(prog)
    for f, l, why in unread:
        res.note("%s:%s: rule not read: %s" % (f, l, why))
    res.need(len(RULES), "rules", 400)
    jobs = [(i, j, True, tier == "thorough") for i in range(len(RULES)) for j in range(len(RULES[i].repls))]
    seen = {}
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, j, r in pool.imap(job, jobs, chunksize=4):
            rule = RULES[i]
            base = "%s:%s" % (rule.where, R.text(rule.pattern))
            key = base + ("[%d]" % j if j else "")
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1:
                key += "#%d" % seen[key]
            res.count("replacements")
            repl, cond = rule.repls[j]
            if r[0] == "ok":
                res.ok("rule " + key)
            elif r[0] == "bad":
                res.bad(key, rule.file, rule.line, "%s is replaced by %s%s, which has another value at %s" % (
                    R.text(rule.pattern), R.text(repl), " when " + R.text(cond) if cond is not None else "",
                    ", ".join("%s = %s" % (k, v) for k, v in sorted(r[1].items()) if k != "unbound") or r[1]), None)
            else:
                res.note("%s:%s: not decided: %s" % (rule.file, rule.line, r[1]))


# ------------------------------------------------------------------------------------------------------------------ choice

def choice(res, prog):
    """find_replacement: the next replacement is considered only where the predicate is false, and one is used only where it is
    true."""
    fs = [f for f in prog.functions if f.q == "slinky::rewrite::base_rewriter::find_replacement" and f.dep and len(f.params) >= 3]
    if not fs:
        raise AnalysisBroken("base_rewriter::find_replacement with a predicate not found")
    good = True
    seen = set()
    for f in fs:
        if f.line in seen:
            continue
        seen.add(f.line)
        flags, repls = [], []

        def subst(fo, n, s):
            a = n.get("args") or []
            if len(a) != 3 or a[0].get("k") != "ref":
                return None
            y = s.copy()
            o = ("v", fo.fresh("o"))
            flags.append(o)
            if a[2].get("k") == "ref" and a[2].get("d") in y.env and y.env[a[2]["d"]][0] == "t":
                old = y.env[a[2]["d"]][1]
                y.env[a[2]["d"]] = ("t", ("||", old, o))
            what = a[0].get("n")
            y.env["overflows"] = y.env.get("overflows", ()) + (o,)
            if what == f.params[2]["n"]:
                v = ("v", "p")
            else:
                v = ("v", "r")
                y.env["used"] = True
            return [(y, ("t", v))]

        def nxt(fo, n, s):
            return [(s, ("next",))]

        fo = Matching(prog, {"substitute": subst, "find_replacement": nxt})
        env = {p["d"]: ("t", ("v", p["n"])) for p in f.params}
        key = "find_replacement"
        try:
            out = fo.run(plain(f.body), F.State(env))
            for s, r in out:
                if s.doubt or r is None:
                    res.note("find_replacement: path not followed: %s" % "; ".join(s.doubt))
                    good = False
                    continue
                p, over = ("v", "p"), s.env.get("overflows", ())
                if r[0] == "next":
                    calm = s.facts + tuple(("!", o) for o in over)
                    if not entails(calm, ("!", p)):
                        good = False
                        res.bad(key + ":next", f.file, f.line, "goes on to the next replacement although the predicate of this one holds: "
                                "the next relies on it being false", None)
                    elif not all(entails(s.facts, ("!", o)) for o in over):
                        good = False
                        res.bad(key + ":next", f.file, f.line, "goes on to the next replacement when evaluating this one overflowed: "
                                "the next relies on this one's predicate being false, and that is not known", None)
                    else:
                        res.ok("choice " + key + ":next")
                elif r[0] == "t":
                    no = entails(s.facts, ("!", r[1]))
                    if no:
                        continue
                    if not s.env.get("used"):
                        res.bad(key + ":used", f.file, f.line, "reports success without a replacement", None)
                    elif not entails(s.facts, p):
                        res.bad(key + ":used", f.file, f.line, "uses a replacement although its predicate does not hold", None)
                    elif not all(entails(s.facts + (("bool", r[1]),), ("!", o)) for o in over):
                        res.bad(key + ":used", f.file, f.line, "uses a replacement although computing it overflowed", None)
                    else:
                        res.ok("choice " + key + ":used")
                else:
                    res.note("find_replacement: result not followed")
                    good = False
        except F.Unread as ex:
            res.note("find_replacement: not read: %s" % ex)
            good = False
    return good


def entails(facts, t):
    """The facts, as propositions over variables, imply t. By truth table."""
    vs = []
    for f in tuple(facts) + (t,):
        R.variables(f, vs)
    vs = sorted(set(vs))
    if len(vs) > 10:
        return False
    for b in range(1 << len(vs)):
        e = {v: (b >> i) & 1 for i, v in enumerate(vs)}
        try:
            if all(R.ev(f, e) for f in facts) and not R.ev(t, e):
                return False
        except (ArithmeticError, R.Undecided):
            return False
    return True


# --------------------------------------------------------------------------------------------------------------- functions

def verdict(res, key, f, s, r, spec, what, tier):
    if s.doubt:
        res.count("paths left out")
        if os.environ.get("C27_DEBUG"):
            print(key, s.doubt)
        return
    if r is None or r[0] not in ("t", "node"):
        res.note("%s: result not followed" % key)
        return
    v = same_value(spec, r[1] if r[0] == "t" else None, s.facts, tier == "thorough")
    if v[0] == "ok":
        res.ok("value " + key)
    elif v[0] == "bad":
        res.bad(key, f.file, f.line, "%s %s on a path where %s, which has another value at %s" % (
            what, R.text(r[1]), " and ".join(R.text(t) if t[0] != "same" else "%s is %s" % (R.text(t[1]), R.text(t[2]))
                                             for t in s.facts if t[0] != "is") or "nothing is known",
            ", ".join("%s = %s" % kv for kv in sorted(v[1].items()) if kv[0] != "unbound")), None)
    else:
        res.note("%s: not decided: %s" % (key, v[1]))


def builders(res, prog, tier):
    """substitute_binary and simplify: the result has the value of the operation."""
    n = 0
    done = set()
    for f in prog.functions:
        short = f.q.split("::")[-1]
        if not f.body or f.dep or (f.file, f.line) in done:
            continue
        if f.q == "slinky::simplify" and len(f.params) >= 2 and "*" in f.params[0]["t"] and all("expr" in x["t"] for x in f.params[1:]):
            T, ops = F.cls(f.params[0]["t"]), f.params[1:]
            first = f.params[0]
        elif f.q == "slinky::rewrite::substitute_binary" and len(f.params) == 4 and F.cls(f.params[0]["t"]) == "expr" and F.cls(
                f.params[3]["t"]) in F.OPS and "expr" in f.params[0]["t"]:
            T, ops, first = F.cls(f.params[3]["t"]), f.params[:2], None
        elif f.q in ("slinky::make_binary", "slinky::make_unary") and f.params and all(x["t"] == "long" for x in f.params):
            m = re.search(r"make_\w+<(?:class |struct )?([\w:]+)>", f.fid)
            T, ops, first = m.group(1).split("::")[-1] if m else "", f.params, None
            short += " of numbers"
        else:
            continue
        if T not in F.OPS and T not in F.FIELDS or len(F.fields(T)) != len(ops):
            continue
        done.add((f.file, f.line))
        env = {x["d"]: ("t", ("v", x["n"])) for x in ops}
        if first:
            env[first["d"]] = ("node", T, "op", None)
        key = "%s:%s" % (short, T)
        spec = F.node(T, [("v", x["n"]) for x in ops])
        try:
            out = F.Folds(prog).run(f.body, F.State(env))
        except F.Unread as ex:
            res.note("%s: not read: %s" % (key, ex))
            continue
        n += 1
        for s, r in out:
            verdict(res, key, f, s, r, spec, "returns", tier)
    res.need(n, "folding functions", 20)


def subs(t):
    """The template arguments of a type."""
    m = re.search(r"<(.*)>", t)
    out, depth, cur = [], 0, ""
    for c in m.group(1) if m else "":
        depth += c == "<"
        depth -= c == ">"
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def commutative(prog):
    out = {}
    for T in F.OPS:
        rec = prog.records.get("slinky::" + T)
        for v in (rec or {}).get("svars", []):
            if v["n"] == "commutative":
                i = v.get("init") or {}
                out[T] = bool(i.get("cv"))
    return out


def pattern_of(t):
    m = re.search(r"slinky::rewrite::(pattern_\w+)<", t)
    return m.group(1) if m else None


def matchers(res, prog, tier):
    comm = commutative(prog)
    res.need(len(comm), "operations", 10)
    for T, c in sorted(comm.items()):
        rec = prog.records["slinky::" + T]
        if c and T not in COMMUTES:
            res.bad("commutative:" + T, rec["file"], rec["l"], "%s is declared commutative, so its operands are swapped to match" % T, None)
        else:
            res.ok("commutative " + "commutative:" + T)
    # could_commute
    info = [r for r in prog.records.values() if r["q"] == "slinky::rewrite::pattern_info" and any(v["n"] == "could_commute" for v in r["svars"])]
    implied = False
    for r in info:
        v = [v for v in r["svars"] if v["n"] == "could_commute"][0]
        implied = requires(v.get("init"), "commutative")
        if implied:
            res.ok("commutative could_commute")
        else:
            res.bad("could_commute", r["file"], v["l"], "operands are swapped for operations that are not commutative")
    n, done = 0, set()
    for f in prog.functions:
        if not f.dep or not f.body or f.q not in ("slinky::rewrite::match", "slinky::rewrite::match_binary") or (f.file, f.line) in done:
            continue
        if not f.params or not pattern_of(f.params[0]["t"]):
            continue
        done.add((f.file, f.line))
        kind = pattern_of(f.params[0]["t"])
        targs = subs(f.params[0]["t"])
        types = [""]
        if kind in ("pattern_binary", "pattern_unary"):
            types = [T for T in (F.OPS if kind == "pattern_binary" else ("logical_not",))]
        short = f.q.split("::")[-1]
        for T in types:
            key = "%s(%s%s)" % (short, kind, ", " + T if T else "")
            if any("pattern_" in x["t"] for x in f.params[1:]):
                key += ":" + "pattern"
            elif kind == "pattern_binary" and "pattern_optional" in f.params[0]["t"]:
                key += ":optional %s" % ("a" if "pattern_optional" in targs[1] else "b")
            elif len(f.params) > 1 and f.params[1]["t"] == "long":
                key += ":number"
            try:
                k = one_matcher(res, prog, f, kind, T, targs, comm, implied, key, tier)
            except F.Unread as ex:
                res.note("%s: not read: %s" % (key, ex))
                k = 0
            n += k
        masks(res, prog, f, kind, key.replace(", " + types[-1], "") if types[-1] else key)
    res.need(n, "matching functions", 40)


def requires(n, name):
    """A conjunction one of whose parts is `name`."""
    if not n:
        return False
    n = plain(n)
    if n.get("k") in ("paren", "cast"):
        return requires(n["e"], name)
    if n.get("k") == "bin" and n.get("op") == "&&":
        return requires(n["L"], name) or requires(n["R"], name)
    return n.get("n") == name


SHAPES = {"pattern_binary": ("a", "b"), "pattern_unary": ("a",), "pattern_select": ("c", "t", "f"), "pattern_optional": ("a",),
          "pattern_staircase": ("x", "a", "b", "c")}


def one_matcher(res, prog, f, kind, T, targs, comm, implied, key, tier):
    body = plain(f.body)
    hooks = {"match": matches, "get": constant_get}
    types = {}
    if T:
        types[targs[0]] = "slinky::" + T
        hooks["match_binary"] = binary_matches(T)
    if kind in ("pattern_wildcard", "pattern_constant"):
        return leaf(res, prog, f, kind, body, key)
    if kind not in SHAPES:
        return 0
    fs = SHAPES[kind]
    p = {x: ("t", ("v", "p." + x)) for x in fs}
    env = {f.params[0]["d"]: ("rec", p)}
    consts = {}
    if kind == "pattern_binary" and "pattern_optional" in f.params[0]["t"]:
        consts[subs([t for t in targs if "pattern_optional" in t][0])[1]] = None
    vals = [("v", "p." + x) for x in fs]
    if kind == "pattern_binary":
        spec = F.node(T, vals)
    elif kind == "pattern_unary":
        spec = F.node(T, vals)
    elif kind == "pattern_select":
        spec = ("sel",) + tuple(vals)
    elif kind == "pattern_optional":
        spec = vals[0]
    else:
        spec = ("*", ("/", ("+", vals[0], vals[1]), vals[2]), vals[3])
    if f.q.endswith("match_binary"):
        env[f.params[1]["d"]], env[f.params[2]["d"]] = ("t", ("v", "a")), ("t", ("v", "b"))
        target = F.node(T, [("v", "a"), ("v", "b")])
    elif "pattern_" in f.params[1]["t"]:
        env[f.params[1]["d"]] = ("rec", {x: ("rec", {"e": ("t", ("v", "x." + x))}) for x in fs})
        ts = [("v", "x." + x) for x in fs]
        target = F.node(T, ts) if T else ("sel",) + tuple(ts)
    else:
        env[f.params[1]["d"]] = ("t", ("v", "x"))
        target = ("v", "x")
    fo = Matching(prog, hooks, types, {k: NEUTRAL for k in consts}, (implied and comm.get(T, False)) or (not implied))
    absent = None
    if consts:
        # the default stands for the operand that is not there: a symbol, whose value the patterns choose
        absent = next(iter(consts))
        fo.consts = {}
        env["default"] = ("t", ("v", "default"))
        fo.default = absent
    names = (f.raw.get("tparams") or "").split()
    m = re.search(r"type-parameter-0-(\d+)$", targs[0])
    if T and m and int(m.group(1)) < len(names):
        fo.names = {names[int(m.group(1))]: "slinky::" + T}
    out = fo.run(with_default(body, absent) if absent else body, F.State(env))
    for s, r in out:
        if s.doubt:
            res.count("paths left out")
            if os.environ.get("C27_DEBUG"):
                print(key, s.doubt)
            continue
        if r is None or r[0] != "t":
            res.note("%s: result not followed" % key)
            continue
        if r[1] == ("k", 0):
            continue
        facts = list(s.facts)
        if r[1] != ("k", 1):
            facts.append(("bool", r[1]))
        if absent:
            # where the operation is not there, the operand that is not optional has the value of x, and the other the default
            if not any(k[0] == "there" and v for k, v in s.env.items() if isinstance(k, tuple)):
                opt, other = ("a", "b") if "pattern_optional" in targs[1] else ("b", "a")
                okd = any(g == ("==", ("v", "p." + opt), ("v", "default")) or g == ("==", ("v", "default"), ("v", "p." + opt)) for g in facts)
                okx = any(g in (("==", ("v", "p." + other), ("v", "x")), ("==", ("v", "x"), ("v", "p." + other))) for g in facts)
                if okd and okx:
                    res.ok("match " + key)
                else:
                    res.bad(key, f.file, f.line, "matches an operation that is not there without giving its %s operand the default and its %s "
                            "operand the expression" % (opt, other), None)
                continue
        v = same_value(spec, target, facts, tier == "thorough")
        if v[0] == "ok":
            res.ok("match " + key)
        elif v[0] == "bad":
            res.bad(key, f.file, f.line, "accepts an expression whose value is not that of the pattern, on a path where %s: %s" % (
                " and ".join(R.text(t) if t[0] != "same" else "%s is %s" % (R.text(t[1]), R.text(t[2])) for t in facts if t[0] != "is"),
                ", ".join("%s = %s" % kv for kv in sorted(v[1].items()) if kv[0] != "unbound")), None)
        else:
            res.note("%s: not decided: %s" % (key, v[1]))
    return 1


NEUTRAL = 0


def with_default(n, name):
    """The body with the default parameter as a variable."""
    if isinstance(n, list):
        return [with_default(x, name) for x in n]
    if not isinstance(n, dict):
        return n
    if n.get("k") in ("ref", "dref") and n.get("n") == name and "cv" not in n:
        return {"k": "ref", "n": name, "d": "default", "l": n.get("l"), "t": n.get("t"), "id": n.get("id")}
    return {k: with_default(v, name) for k, v in n.items()}


def leaf(res, prog, f, kind, body, key):
    """A wildcard or constant is compared where it was seen before, and stored where it was not."""
    fo0 = Matching(prog)
    bit = None
    for r in prog.records.values():
        if r["q"] == "slinky::rewrite::" + kind and r.get("dep"):
            for v in r["svars"]:
                if v["n"] == "matched":
                    fo0.consts = {"N": 2}
                    (s, v), = fo0.ev(plain(v["init"]), F.State({}))
                    if v[0] == "t" and v[1][0] == "k":
                        bit = v[1][1]
    if bit is None:
        raise F.Unread("the mask of " + kind)
    if not any(n.get("n") == "matched" for n in walk(body) if n.get("k") in ("ref", "dref")):
        # forwards to the overload for numbers
        fo = Matching(prog, {"match": matches}, {}, {"N": 2})
        env = {f.params[0]["d"]: ("t", ("v", "p")), f.params[1]["d"]: ("t", ("v", "x"))}
        out = fo.run(body, F.State(env))
        for s, r in out:
            if s.doubt or r is None or r[0] != "t":
                continue
            if r[1] == ("k", 0):
                continue
            v = same_value(("v", "p"), ("v", "x"), s.facts, False)
            if v[0] == "bad":
                res.bad(key, f.file, f.line, "accepts an expression that is not the constant", None)
            else:
                res.ok("match " + key)
        return 1
    for m in (0, bit, ((1 << 20) - 1) & ~bit):
        def compare(fo, n, s):
            a = n.get("args") or []
            if len(a) != 2:
                return None
            return [(x, ("t", ("==", vs[0][1], vs[1][1])) if all(v[0] == "t" for v in vs) else ("x", "match")) for x, vs in fo.evs(a, s)]
        fo = Matching(prog, {"match": compare}, {}, {"N": 2, "matched": m})
        env = {f.params[0]["d"]: ("t", ("v", "p")), f.params[1]["d"]: ("t", ("v", "x"))}
        for s, r in fo.run(body, F.State(env)):
            if s.doubt or r is None or r[0] != "t":
                res.note("%s: path not followed: %s" % (key, "; ".join(s.doubt)))
                continue
            if m & bit:
                good = not s.env.get("stored") and r[1][0] == "==" and ("v", "x") in r[1]
                why = "does not compare with what the same symbol of the pattern matched before"
            else:
                good = s.env.get("stored") and r[1] == ("k", 1) and any(
                    k[0] == "at" and v == ("t", ("v", "x")) for k, v in s.env.items() if isinstance(k, tuple))
                why = "does not remember what the symbol matched"
            if good:
                res.ok("match " + key)
            else:
                res.bad(key, f.file, f.line, why, None)
    return 1


def masks(res, prog, f, kind, key):
    """The operands matched before are named to the match of every later one, which then compares instead of storing."""
    names = (f.raw.get("tparams") or "").split()
    targs = subs(f.params[0]["t"])
    rec = [r for r in prog.records.values() if r["q"] == "slinky::rewrite::" + kind and r.get("dep")]
    if not names or not rec or kind in ("pattern_wildcard", "pattern_constant", "pattern_optional"):
        return
    rt = subs(rec[0]["t"])
    par = {}
    for fl in rec[0]["fields"]:
        if fl["t"] in rt and rt.index(fl["t"]) < len(targs):
            m = re.search(r"type-parameter-0-(\d+)", targs[rt.index(fl["t"])])
            if m and int(m.group(1)) < len(names):
                par[fl["n"]] = names[int(m.group(1))]
    # local masks by name
    local = {}
    for n in walk(f.body):
        if n.get("k") == "decl":
            for v in n.get("v", []):
                if v.get("init"):
                    local[v["n"]] = parts(v["init"], local)
    pid = f.params[0]["d"]

    def field(n):
        while n.get("k") in ("paren", "cast"):
            n = n["e"]
        if n.get("k") in ("dmem", "mem") and n["b"].get("k") == "ref" and n["b"].get("d") == pid:
            return n["n"]

    def calls(n, before):
        """Follows evaluation order; returns what has been matched where n is true."""
        k = n.get("k")
        if k == "call" and (n.get("callee") or {}).get("n") == "match" and n.get("args"):
            x = field(n["args"][0])
            if x in par:
                have = text_parts((n["callee"].get("ta") or ""), local)
                for b in sorted(before - {x}):
                    if par[b] in have:
                        res.ok("mask " + key + ":mask:" + x)
                    else:
                        res.bad(key + ":mask:" + x, f.file, n["l"], "operand %s is matched without knowing that operand %s was: a symbol that is "
                                "in both is not compared" % (x, b), None)
                return before | {x}
            return before
        if k == "call" and n.get("op") in ("&&",) and len(n.get("args", [])) == 2:
            return calls(n["args"][1], calls(n["args"][0], before))
        if k == "bin" and n.get("op") == "&&":
            return calls(n["R"], calls(n["L"], before))
        if k in ("paren", "cast", "tmp", "return", "expr"):
            return calls(n["e"], before) if n.get("e") else before
        if k == "un" and n.get("op") == "!" or k == "call" and n.get("op") == "!":
            e = n.get("e") or n["args"][0]
            calls(e, before)
            return before
        if k == "block":
            for c in n.get("c", []):
                before = calls(c, before)
            return before
        if k == "if":
            c = n["c"]
            neg = c.get("k") == "call" and c.get("op") == "!" or c.get("k") == "un" and c.get("op") == "!"
            inner = calls((c.get("e") or c["args"][0]) if neg else c, before)
            ends = lambda b: b is not None and any(x.get("k") == "return" for x in walk(b)) and last_returns(b)
            a = calls(n["a"], before if neg else inner) if n.get("a") else before
            b = calls(n["b"], inner if neg else before) if n.get("b") else (inner if neg else before)
            outs = [o for o, br in ((a, n.get("a")), (b, n.get("b"))) if not ends(br)]
            if not outs:
                return before
            r = outs[0]
            for o in outs[1:]:
                r = r & o
            return r
        for c in kids(n):
            before = calls(c, before)
        return before

    calls(f.body, frozenset())


def last_returns(b):
    if b.get("k") == "return":
        return True
    if b.get("k") == "block":
        return bool(b.get("c")) and last_returns(b["c"][-1])
    if b.get("k") == "if":
        return bool(b.get("b")) and last_returns(b["a"]) and last_returns(b["b"])
    return False


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def text_parts(t, local):
    out = set(re.findall(r"pattern_info<(\w+)>::matched", t))
    for w in re.findall(r"\w+", t):
        out |= local.get(w, set())
    return out


def parts(n, local):
    out = set()
    for x in walk(n):
        if x.get("k") == "dref" and x.get("n") == "matched":
            out |= set(re.findall(r"pattern_info<(\w+)>::", x.get("qual") or ""))
        elif x.get("k") == "ref":
            out |= local.get(x.get("n"), set())
    return out


def substitutes(res, prog, tier):
    """substitute of the composite patterns."""
    n, done = 0, set()
    for f in prog.functions:
        if not f.dep or not f.body or f.q != "slinky::rewrite::substitute" or (f.file, f.line) in done or not f.params:
            continue
        kind = pattern_of(f.params[0]["t"])
        if kind not in SHAPES:
            continue
        done.add((f.file, f.line))
        targs = subs(f.params[0]["t"])
        fs = SHAPES[kind]
        types = list(F.OPS) if kind == "pattern_binary" else ["logical_not"] if kind == "pattern_unary" else [""]
        for T in types:
            key = "substitute(%s%s)" % (kind, ", " + T if T else "")

            def made(fo, n, s, T=T):
                a = (n.get("args") or [])[:len(SHAPES[kind])]
                out = []
                for x, vs in fo.evs(a, s):
                    ok = all(v[0] == "t" for v in vs)
                    out.append((x, ("t", F.node(T, [v[1] for v in vs])) if ok else ("x", "operands")))
                return out

            env = {f.params[0]["d"]: ("rec", {x: ("t", ("v", "p." + x)) for x in fs})}
            vals = [("v", "p." + x) for x in fs]
            if T:
                spec = F.node(T, vals)
            elif kind == "pattern_select":
                spec = ("sel",) + tuple(vals)
            elif kind == "pattern_optional":
                spec = vals[0]
            else:
                spec = ("*", ("/", ("+", vals[0], vals[1]), vals[2]), vals[3])
            fo = Matching(prog, {"substitute": substituted, "substitute_binary": made, "make_unary": made}, {targs[0]: "slinky::" + T} if T else {})
            try:
                out = fo.run(plain(f.body), F.State(env))
            except F.Unread as ex:
                res.note("%s: not read: %s" % (key, ex))
                continue
            n += 1
            for s, r in out:
                verdict(res, key, f, s, r, spec, "builds", tier)
    res.need(n, "substitutions", 10)


def check(res, tier):
    prog = Program()
    res.rule("rule", "a pattern and its replacement have the same value wherever the replacement's predicate holds and those before it do not")
    res.rule("choice", "a replacement is used only where its predicate was evaluated without overflow and holds; the next is considered only where it was and does not")
    res.rule("value", "what a folding function or substitution returns has the value of the operation over its operands, on every path")
    res.rule("match", "where a match succeeds, the expression has the value of the pattern under the symbols that were bound")
    res.rule("mask", "a symbol that occurs twice in a pattern is bound once and compared from then on")
    res.rule("commutative", "operands are swapped only of operations that commute")
    choice(res, prog)
    the_rules(res, prog, tier)
    builders(res, prog, tier)
    matchers(res, prog, tier)
    substitutes(res, prog, tier)
    res.assumptions += ["values are finite and no intermediate result overflows (C15 covers overflow in the evaluation of rules)"]
