"""Interpretation of the functions that build or rewrite one expression, over all paths at once: what expression comes out, as
a term over the operands (see rules.py), under which facts about them. Expressions stand for their values; a path that
asks something this reading does not follow is marked, and nothing is reported from it."""
import re

from . import rules as R
from .program import show


class Unread(Exception):
    pass


OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "min": "min", "max": "max", "less": "<",
       "less_equal": "<=", "equal": "==", "not_equal": "!=", "logical_and": "&&", "logical_or": "||"}
ARITH = {"+": "+", "-": "-", "*": "*", "/": "c/", "%": "c%"}
FIELDS = {"select": ("condition", "true_value", "false_value"), "logical_not": ("a",), "constant": ("value",)}


def cls(t):
    t = (t or "").replace("const ", "").replace("class ", "").replace("struct ", "").strip(" *&")
    return t.split("::")[-1]


def node(T, args):
    if T in OPS and len(args) == 2:
        return (OPS[T],) + tuple(args)
    if T == "select" and len(args) == 3:
        return ("sel",) + tuple(args)
    if T == "logical_not" and len(args) == 1:
        return ("!", args[0])
    if T == "constant" and len(args) == 1:
        return args[0]
    raise Unread("node " + T)


def fields(T):
    return FIELDS.get(T, ("a", "b") if T in OPS else ())


class State:
    __slots__ = ("env", "facts", "doubt")

    def __init__(self, env, facts=(), doubt=()):
        self.env, self.facts, self.doubt = env, facts, doubt

    def copy(self):
        return State(dict(self.env), self.facts, self.doubt)

    def fact(self, f):
        s = self.copy()
        s.facts += (f,)
        return s

    def unsure(self, why):
        s = self.copy()
        s.doubt += (why,)
        return s


class Folds:
    def __init__(self, prog, hooks=None, types=None):
        self.prog = prog
        self.n = 0
        self.hooks = hooks or {}
        self.types = types or {}        # template parameters to operators
        self.steps = 0

    def fresh(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    # values: ("t", term) ("node", T, name, exists) ("opt", term) ("rw", term) ("null",) ("x", what)

    def term(self, v):
        if v[0] == "t":
            return v[1]
        if v[0] == "node":
            return self.whole(v)
        raise Unread("value " + str(v[0]))

    def whole(self, v):
        return node(v[1], [("v", "%s.%s" % (v[2], f)) for f in fields(v[1])])

    # -- statements
    def run(self, st, s):
        """[(state, result or None)]"""
        self.steps += 1
        if self.steps > 40000:
            raise Unread("too many paths")
        if st is None:
            return [(s, None)]
        k = st.get("k")
        if k == "block":
            out, live = [], [s]
            for c in st.get("c", []):
                nxt = []
                for x in live:
                    for y, r in self.run(c, x):
                        (out if r is not None else nxt).append((y, r) if r is not None else y)
                live = nxt
            return out + [(x, None) for x in live]
        if k == "decl":
            live = [s]
            for v in st.get("v", []):
                nxt = []
                for x in live:
                    if v.get("init"):
                        for y, val in self.ev(v["init"], x):
                            y = y.copy()
                            y.env[v["d"]] = val
                            nxt.append(y)
                    else:
                        y = x.copy()
                        y.env[v["d"]] = ("none",)
                        nxt.append(y)
                live = nxt
            return [(x, None) for x in live]
        if k == "return":
            if not st.get("e"):
                return [(s, ("none",))]
            return [(x, v) for x, v in self.ev(st["e"], s)]
        if k == "if":
            live = [s]
            if st.get("init"):
                live = [x for x, _ in self.run(st["init"], s)]
            v = st.get("var")
            if v:
                nxt = []
                for x in live:
                    for y, val in self.ev(v["init"], x):
                        y = y.copy()
                        y.env[v["d"]] = val
                        nxt.append(y)
                live = nxt
            out = []
            for x in live:
                for y, b in self.cond(st["c"], x):
                    br = st.get("a") if b else st.get("b")
                    out += self.run(br, y) if br else [(y, None)]
            return out
        if k in ("expr", "null", "empty") and not st.get("e"):
            return [(s, None)]
        if k == "expr":
            return [(x, None) for x, _ in self.ev(st["e"], s)]
        if k in ("for", "while", "do", "rfor", "switch"):
            raise Unread("statement " + k)
        return [(x, None) for x, _ in self.ev(st, s)]

    # -- conditions
    def cond(self, n, s):
        k = n.get("k")
        if k in ("paren", "cast", "tmp"):
            return self.cond(n["e"], s)
        if k == "un" and n["op"] == "!":
            return [(x, not b) for x, b in self.cond(n["e"], s)]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for x, b in self.cond(n["L"], s):
                if b == (n["op"] == "||"):
                    out.append((x, b))
                else:
                    out += self.cond(n["R"], x)
            return out
        out = []
        for x, v in self.ev(n, s):
            out += self.truth(v, x)
        return out

    def truth(self, v, s):
        if v[0] == "t":
            t = v[1]
            if t[0] == "k":
                return [(s, t[1] != 0)]
            return [(s.fact(("bool", t)), True), (s.fact(("!", t)), False)]
        if v[0] == "null":
            return [(s, False)]
        if v[0] == "node":
            a = s
            if v[3] is not None:
                a = s.fact(("same", v[3], self.whole(v)))
            key = ("there", v[2])
            if key in s.env:
                return [(s, s.env[key])]
            a, b = a.copy(), s.copy()
            a.env[key], b.env[key] = True, False
            return [(a, True), (b, False)]
        if v[0] == "opt":
            key = ("const", v[1])
            if v[1][0] == "k":
                return [(s, True)]
            if key in s.env:
                return [(s, s.env[key])]
            a, b = s.copy(), s.copy()
            a.env[key], b.env[key] = True, False
            return [(a, True), (b, False)]
        if v[0] == "free":
            return [(s, True), (s, False)]
        if v[0] == "rare":
            return [(s.unsure(v[1]), True), (s, False)]
        if v[0] == "fact":     # known when true, nothing when false
            return [(s.fact(v[1]), True), (s, False)]
        if v[0] == "x":
            return [(s.unsure(v[1]), True), (s.unsure(v[1]), False)]
        raise Unread("condition " + str(v[0]))

    # -- expressions
    def evs(self, ns, s):
        out = [(s, [])]
        for n in ns:
            out = [(y, vs + [v]) for x, vs in out for y, v in self.ev(n, x)]
        return out

    def ev(self, n, s):
        self.steps += 1
        if self.steps > 40000:
            raise Unread("too many paths")
        k = n.get("k")
        if k in ("paren", "tmp") or k == "cast":
            e = n["e"]
            if k == "cast" and e.get("k") == "null" and "*" in str(n.get("to")):
                return [(s, ("null", cls(self.resolve(n["to"]))))]
            return self.ev(e, s)
        if k == "null":
            return [(s, ("null", ""))]
        if "cv" in n and k != "ref":
            return [(s, ("t", ("k", int(n["cv"]))))]
        if k == "ref":
            if n.get("d") in s.env:
                return [(s, s.env[n["d"]])]
            if "cv" in n:
                return [(s, ("t", ("k", int(n["cv"]))))]
            return [(s, ("x", "reference to %s" % n.get("n")))]
        if k in ("mem", "dmem"):
            out = []
            for x, v in self.ev(n["b"], s):
                if v[0] == "node" and n.get("n") in fields(v[1]):
                    out.append((x, ("t", ("v", "%s.%s" % (v[2], n["n"])))))
                elif v[0] == "rw" and n.get("n") == "result":
                    out.append((x, ("t", v[1])))
                elif v[0] == "rec" and n.get("n") in v[1]:
                    out.append((x, v[1][n["n"]]))
                else:
                    out.append((x, ("x", "member %s" % n.get("n"))))
            return out
        if k == "un":
            if n["op"] == "!":
                return [(x, ("t", ("k", int(b)))) for x, b in self.cond(n, s)]
            out = []
            for x, v in self.ev(n["e"], s):
                if n["op"] == "*" and v[0] == "opt":
                    out.append((x, ("t", v[1])))
                elif n["op"] == "*" and v[0] in ("node",):
                    out.append((x, v))
                elif n["op"] == "-" and v[0] == "t":
                    out.append((x, ("t", ("k", -v[1][1]) if v[1][0] == "k" else ("-", ("k", 0), v[1]))))
                elif n["op"] == "+" and v[0] == "t":
                    out.append((x, v))
                else:
                    out.append((x, ("x", "operator " + n["op"])))
            return out
        if k == "bin":
            op = n["op"]
            if op == "=":
                return self.assign(n["L"], n["R"], s)
            if op in ("&&", "||"):
                return [(x, ("t", ("k", int(b)))) for x, b in self.cond(n, s)]
            out = []
            for x, (a, b) in self.evs([n["L"], n["R"]], s):
                out.append((x, self.op(op, a, b)))
            return out
        if k in ("cond", "ternary"):
            out = []
            for x, b in self.cond(n["c"], s):
                out += self.ev(n["a"] if b else n["b"], x)
            return out
        if k == "asg" or k == "assign":
            return self.assign(n["L"], n["R"], s)
        if k in ("ctor", "dctor"):
            a = [x for x in (n.get("args") or []) if x.get("k") != "defarg"]
            if len(a) == 1:
                out = []
                for x, v in self.ev(a[0], s):
                    out.append((x, self.convert(v, n)))
                return out
            if not a:
                return [(s, ("none",))]
            return [(x, ("x", "constructor")) for x, _ in self.evs(a, s)]
        if k == "ilist" and len(n.get("c") or []) == 1:
            return self.ev(n["c"][0], s)
        if k in ("call", "opcall"):
            return self.call(n, s)
        if k == "throw":
            return []
        return [(s, ("x", "expression " + str(k)))]

    def resolve(self, t):
        for a, b in self.types.items():
            t = re.sub(r"\b%s\b" % re.escape(a), b, t)
        return t

    def convert(self, v, n):
        if v[0] == "node" and "expr" in cls(n.get("t")):
            return ("t", self.whole(v))
        return v

    def op(self, op, a, b):
        if a[0] == "null" or b[0] == "null":
            o = b if a[0] == "null" else a
            if op in ("==", "!=") and o[0] in ("node", "null"):
                return ("x", "comparison with null")
        if a[0] != "t" or b[0] != "t":
            return ("x", "operator " + op)
        if op in ("<", "<=", "==", "!=", "+", "-", "*"):
            return ("t", (op, a[1], b[1]))
        if op == ">":
            return ("t", ("<", b[1], a[1]))
        if op == ">=":
            return ("t", ("<=", b[1], a[1]))
        return ("x", "operator " + op)

    def assign(self, L, Rn, s):
        while L.get("k") == "paren":
            L = L["e"]
        out = []
        for x, v in self.ev(Rn, s):
            if L.get("k") == "ref" and L.get("d") in x.env:
                y = x.copy()
                y.env[L["d"]] = v
                out.append((y, v))
            elif L.get("k") in ("mem", "dmem"):
                y = x.copy()
                y.env[("member", L.get("n"))] = v
                out.append((y, v))
            else:
                raise Unread("assignment to " + show(L)[:40])
        return out

    def call(self, n, s):
        fn = n.get("fn") or (n.get("callee") or {}).get("q") or (n.get("callee") or {}).get("n") or ""
        name = fn.split("::")[-1]
        fid = n.get("fid") or ""
        args = n.get("args") or []
        h = self.hooks.get(name)
        if h:
            r = h(self, n, s)
            if r is not None:
                return r
        obj = n.get("obj")
        cal = n.get("callee") or {}
        if obj is None and cal.get("k") in ("dmem", "mem"):
            obj = cal.get("b")
        if name == "move" or name == "forward" or name in ("assert", "__assert_fail"):
            return self.ev(args[0], s) if name in ("move", "forward") else [(s, ("none",))]
        if name == "swap" and len(args) == 2 and all(a.get("k") == "ref" and a.get("d") in s.env for a in args):
            y = s.copy()
            y.env[args[0]["d"]], y.env[args[1]["d"]] = s.env[args[1]["d"]], s.env[args[0]["d"]]
            return [(y, ("none",))]
        if n.get("op") and name.startswith("operator"):
            op = n["op"]
            full = ([obj] if obj is not None else []) + args
            if op == "=" and len(full) == 2:
                return self.assign(full[0], full[1], s)
            if op in ("+=", "-=", "*=", "/=", "%=") and len(full) == 2:
                out = []
                for x, (a, b) in self.evs(full, s):
                    if full[0].get("k") != "ref" or full[0].get("d") not in x.env or a[0] != "t" or b[0] != "t":
                        raise Unread("assignment")
                    y = x.copy()
                    y.env[full[0]["d"]] = ("t", (op[0], a[1], b[1]))
                    out.append((y, y.env[full[0]["d"]]))
                return out
            if op == "*" and len(full) == 1:
                return [(x, ("t", v[1]) if v[0] == "opt" else v) for x, v in self.ev(full[0], s)]
            if op == "->" and len(full) == 1:
                return self.ev(full[0], s)
            if op == "!" and len(full) == 1:
                return [(x, ("t", ("!", self.term(v))) if v[0] == "t" else ("x", "!")) for x, v in self.ev(full[0], s)]
            if op == "-" and len(full) == 1:
                return [(x, ("t", ("-", ("k", 0), self.term(v)))) for x, v in self.ev(full[0], s)]
            if len(full) == 2 and op in OPS.values():
                return [(x, ("t", (op, a[1], b[1])) if a[0] == "t" == b[0] else ("x", "operator " + op))
                        for x, (a, b) in self.evs(full, s)]
            if len(full) == 2 and op in (">", ">="):
                return [(x, ("t", (op.replace(">", "<"), b[1], a[1])) if a[0] == "t" == b[0] else ("x", "operator " + op))
                        for x, (a, b) in self.evs(full, s)]
        if name in ("operator bool", "has_value", "defined") and obj is not None:
            return self.ev(obj, s)
        if obj is not None:
            out = []
            for x, v in self.ev(obj, s):
                if name == "as" and v[0] == "t":
                    m = re.search(r"as<(?:class |struct )?([\w:\- ]+)>", fid)
                    T = m.group(1).split("::")[-1] if m else cls(self.resolve(n.get("t") or ""))
                    T = self.types.get(T, T)
                    if n.get("t") and not m:
                        T = cls(self.resolve(n["t"]))
                    if not fields(T):
                        out.append((x, ("x", "as<%s>" % T)))
                        continue
                    if T == "constant":
                        out.append((x, ("rec", {"value": ("t", v[1])}) if False else ("node", T, self.fresh("n"), v[1])))
                        continue
                    out.append((x, ("node", T, self.fresh("n"), v[1])))
                elif name == "same_as" and len(args) == 1 and v[0] == "t":
                    for y, w in self.ev(args[0], x):
                        if w[0] in ("t", "node"):
                            out.append((y, ("fact", ("same", v[1], self.term(w)))))
                        elif w[0] == "null":
                            out.append((y, ("t", ("k", 0))))
                        else:
                            out.append((y, ("x", "same_as")))
                elif name == "value" and v[0] == "opt":
                    out.append((x, ("t", v[1])))
                elif name == "get" and v[0] == "t":
                    out.append((x, v))
                else:
                    out.append((x, ("x", "call of " + name)))
            return out
        if name == "make" and fn.startswith("slinky::"):
            T = fn.split("::")[-2]
            return self.made(T, args, s)
        if name in ("make_binary", "make_unary"):
            m = re.search(r"%s<(?:class |struct )?([\w:\-]+)" % name, fid) or re.search(r"([\w:]+)$", str(n.get("targs") or ""))
            T = m.group(1).split("::")[-1] if m else None
            T = self.types.get(T, T)
            if T is None or T not in OPS and T != "logical_not":
                return [(s, ("x", name))]
            return self.made(T, args, s)
        if name == "simplify" and len(args) >= 2:
            out = []
            for x, vs in self.evs(args, s):
                T = vs[0][1] if vs[0][0] in ("null", "node") else None
                if T and all(v[0] == "t" for v in vs[1:]):
                    try:
                        out.append((x, ("t", node(T, [v[1] for v in vs[1:]]))))
                        continue
                    except Unread:
                        pass
                out.append((x, ("x", "simplify")))
            return out
        if name == "as_constant" and len(args) == 1:
            return [(x, ("opt", v[1]) if v[0] == "t" else ("x", name)) for x, v in self.ev(args[0], s)]
        if name == "boolean" and len(args) == 1:
            return [(x, ("t", ("bool", v[1])) if v[0] == "t" else ("x", name)) for x, v in self.ev(args[0], s)]
        if name == "select" and len(args) == 3:
            return [(x, ("t", ("sel",) + tuple(v[1] for v in vs)) if all(v[0] == "t" for v in vs) else ("x", name))
                    for x, vs in self.evs(args, s)]
        if name in ("min", "max") and len(args) == 2:
            return [(x, ("t", (name, a[1], b[1])) if a[0] == "t" == b[0] else ("x", name)) for x, (a, b) in self.evs(args, s)]
        if name in ("euclidean_div", "euclidean_mod") and args:
            args = [a for a in args if a.get("k") != "defarg"]
            if len(args) != 2:
                return [(s, ("x", name))]
            o = "/" if name.endswith("div") else "%"
            return [(x, ("t", (o, a[1], b[1])) if a[0] == "t" == b[0] else ("x", name)) for x, (a, b) in self.evs(args, s)]
        if name == "abs" and len(args) == 1:
            return [(x, ("t", ("abs", v[1])) if v[0] == "t" else ("x", name)) for x, v in self.ev(args[0], s)]
        if name in ("is_zero", "is_one", "is_false", "is_true", "is_boolean", "is_non_negative", "is_non_positive", "is_constant") and args:
            out = []
            for x, vs in self.evs(args, s):
                if any(v[0] != "t" for v in vs):
                    out.append((x, ("x", name)))
                    continue
                a = vs[0][1]
                if name == "is_constant":
                    f = ("==", a, vs[1][1]) if len(vs) == 2 else None
                else:
                    f = {"is_zero": ("==", a, ("k", 0)), "is_one": ("==", a, ("k", 1)), "is_false": ("==", a, ("k", 0)),
                         "is_true": ("bool", a), "is_boolean": ("is", "is_boolean", a), "is_non_negative": ("<=", ("k", 0), a),
                         "is_non_positive": ("<=", a, ("k", 0))}[name]
                out.append((x, ("fact", f) if f else ("free",)))
            return out
        if name in ("is_infinity", "is_indeterminate", "is_positive_infinity", "is_negative_infinity"):
            return [(s, ("t", ("k", 0)))]     # finite values are what this is about
        if name in ("should_commute",):
            return [(s, ("free",))]
        if name.endswith("_overflows") or name.endswith("_overflow"):
            return [(s, ("rare", name))]
        if name == "make_rewriter" or name == "rewriter":
            return [(x, ("rw", v[1]) if v[0] == "t" else ("x", name)) for x, v in self.ev(args[0], s)]
        out = []
        for x, vs in self.evs(args, s):
            rw = [v for v in vs if v[0] == "rw"]
            if rw and n.get("t") == "bool":
                out.append((x, ("free",)))
            else:
                out.append((x, ("x", "call of " + (name or show(n)[:40]))))
        return out

    def made(self, T, args, s):
        out = []
        for x, vs in self.evs(args, s):
            vs = [v for v in vs]
            if all(v[0] in ("t", "node") for v in vs):
                out.append((x, ("t", node(T, [self.term(v) for v in vs]))))
            else:
                out.append((x, ("x", T + "::make")))
        return out


def truthy(facts):
    """The facts of a path as one condition of a rule, or None."""
    c = None
    for f in facts:
        if f[0] == "same":
            f = ("==", f[1], f[2])
        c = f if c is None else ("&&", c, f)
    return c


def judge(spec, got, facts, deep=False, extra=None):
    """Is `got` equal to `spec` wherever the facts hold? ('ok'|'bad'|'undecided', detail)"""
    c = truthy(facts)
    if extra is not None:
        c = extra if c is None else ("&&", extra, c)
    r = R.Rule(spec, [(got, c)], 0, "", "")
    return R.decide(r, 0, True, deep, free=True)
