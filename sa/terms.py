"""Abstract interpretation of functions that build expressions.

Values of type expr are terms over the IR's operators; a path carries the relations its branch conditions establish between
terms (is_point, is_non_negative, as_constant, evaluate_constant_lower_bound, ...), nothing else. What a function builds on
each path is then judged by sa/mono.py, which knows the signs and monotonicity of the operators. No path is executed and no
solver is called.
"""
from .traps import strip

OPS = {"add", "sub", "mul", "div", "mod", "min", "max", "less", "less_equal", "equal", "not_equal", "logical_and",
       "logical_or", "logical_not", "select", "abs", "and_then", "or_else"}
EXPR_OP = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "<": "less", "<=": "less_equal", "==": "equal",
           "!=": "not_equal", "&&": "logical_and", "||": "logical_or"}
FIELDS = {"logical_not": ("a",), "select": ("condition", "true_value", "false_value")}


class Unsupported(Exception):
    """Something an analysis does not model: the obligation is reported as undecided, never as violated."""


GAPS = (Unsupported, TypeError, KeyError, IndexError, AttributeError, ValueError, RecursionError, AssertionError, ZeroDivisionError)


class Term:
    __slots__ = ("op", "args", "h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self.h = hash((op, args))

    def __eq__(self, o):
        return isinstance(o, Term) and self.h == o.h and self.op == o.op and self.args == o.args

    def __hash__(self):
        return self.h

    def __repr__(self):
        if self.op == "c":
            return str(self.args[0])
        if self.op == "v":
            return self.args[0]
        if not self.args:
            return self.op
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))

    def atoms(self):
        if self.op == "v":
            return {self}
        r = set()
        for a in self.args:
            if isinstance(a, Term):
                r |= a.atoms()
        return r


def C(n):
    return Term("c", int(n))


def V(n):
    return Term("v", n)


UNDEF = Term("undef")
NEG, POS = Term("-inf"), Term("+inf")


class Rec:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return "{%s}" % ", ".join("%s=%r" % x for x in self.f.items())


class Node:
    """A pointer to (or reference to) a node of class cls; fields None when it is the null pointer."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def term(self):
        if self.fields is None:
            return UNDEF
        return node_term(self)


def node_term(n):
    if n.cls == "call":
        return Term(n.fields["intrinsic"], *n.fields["args"])
    if n.cls == "variable":
        return n.fields["self"]
    if n.cls == "constant":
        return n.fields["value"]
    fs = FIELDS.get(n.cls, ("a", "b"))
    return Term(n.cls, *[n.fields[f] for f in fs])


class St:
    def __init__(self, env=None, facts=(), exact=True):
        self.env = dict(env or {})
        self.facts = list(facts)
        self.exact = exact
        self.ret = None
        self.why = []

    def copy(self):
        s = St(self.env, self.facts, self.exact)
        s.ret = self.ret
        s.why = list(self.why)
        return s

    def fact(self, rel, a, b):
        self.facts.append((rel, a, b))
        return self


def cls_of(t):
    """The IR class a pointer type points to: "const slinky::mul *" -> mul."""
    t = t.replace("const ", "").replace("class ", "").strip()
    if t.endswith("*"):
        t = t[:-1].strip()
        if t.startswith("slinky::"):
            return t[8:]
    return None


def exprish(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("slinky::expr", "slinky::expr_ref", "slinky::var")


class Terms:
    DEPTH = 14
    MAXP = 3000

    def __init__(self, prog, special=None, methods=None):
        self.prog = prog
        self.special = special or {}
        self.methods = methods or {}
        self.n = 0
        self.depth = 0
        self.lams = {}

    def fresh(self, b):
        self.n += 1
        return "%s.%d" % (b, self.n)

    # -- storage
    def load(self, s, v):
        while isinstance(v, tuple) and v and v[0] == "loc":
            x = s.env.get(v[1])
            for f in v[2]:
                x = self.load(s, x)
                x = self.field(s, x, f)
            v = x
        if v is None:
            raise Unsupported("uninitialised value")
        return v

    def field(self, s, x, f):
        if isinstance(x, Rec):
            if f not in x.f:
                raise Unsupported("field " + str(f))
            return x.f[f]
        if isinstance(x, Node):
            if x.fields is None:
                raise Unsupported("null dereference")
            if f not in x.fields:
                raise Unsupported("field %s of %s" % (f, x.cls))
            return x.fields[f]
        if isinstance(x, list):
            return x[f]
        if isinstance(x, tuple) and x[0] == "some":
            return self.field(s, self.load(s, x[1]), f)
        raise Unsupported("field %s" % (f,))

    def field_loc(self, s, o, f):
        return ("loc", o[1], tuple(o[2]) + (f,)) if isinstance(o, tuple) and o[0] == "loc" else self.field(s, o, f)

    def store(self, s, loc, v):
        if not (isinstance(loc, tuple) and loc[0] == "loc"):
            raise Unsupported("store")
        d, path = loc[1], tuple(loc[2])
        while isinstance(s.env.get(d), tuple) and s.env[d] and s.env[d][0] == "loc":
            _, d2, p2 = s.env[d]
            d, path = d2, tuple(p2) + path
        s.env[d] = self.put(s, s.env.get(d), path, v)

    def put(self, s, x, path, v):
        if not path:
            return v
        if isinstance(x, Rec):
            f = dict(x.f)
            f[path[0]] = self.put(s, f.get(path[0]), path[1:], v)
            return Rec(x.t, f)
        if isinstance(x, list):
            y = list(x)
            y[path[0]] = self.put(s, y[path[0]], path[1:], v)
            return y
        if isinstance(x, tuple) and x and x[0] == "some":
            return ("some", self.put(s, x[1], path, v))
        raise Unsupported("store to field")

    # -- functions
    def run(self, f, args, s, this=None):
        if self.depth > self.DEPTH:
            raise Unsupported("recursion")
        if f.body is None:
            raise Unsupported("no body: " + f.q)
        s = s.copy()
        saved_this = s.env.get("this")
        if this is not None:
            s.env["this"] = this
        for i, p in enumerate(f.params):
            v = args[i] if i < len(args) else (self.ev(p["def"], s)[0][1] if p.get("def") else None)
            ref = p["t"].rstrip().endswith("&") and not p["t"].startswith("const")
            s.env[p["d"]] = v if ref or v is None else self.load(s, v)
        for i in f.inits:
            if i.get("f") and i.get("e") is not None:
                r = self.ev(i["e"], s)
                if len(r) != 1:
                    raise Unsupported("initialiser")
                s = r[0][0]
                self.store(s, ("loc", "this", (i["f"],)) if not isinstance(s.env["this"], tuple) else
                           ("loc", s.env["this"][1], tuple(s.env["this"][2]) + (i["f"],)), self.load(s, r[0][1]))
        self.depth += 1
        try:
            done = []
            live = self.stmt(f.body, [s], done)
        finally:
            self.depth -= 1
        out = []
        for st in done + live:
            v = st.ret
            st.ret = None
            if saved_this is not None:
                st.env["this"] = saved_this
            out.append((st, v))
        if len(out) > self.MAXP:
            raise Unsupported("too many paths")
        return out

    def stmt(self, n, sts, done):
        if n is None or not sts:
            return sts
        if len(sts) > self.MAXP:
            raise Unsupported("too many paths")
        k = n["k"]
        if k == "block":
            for c in n["c"]:
                sts = self.stmt(c, sts, done)
            return sts
        if k == "decl":
            for v in n["v"]:
                nx = []
                for s in sts:
                    if v.get("init") is None:
                        s.env[v["d"]] = self.uninit(v)
                        nx.append(s)
                        continue
                    ref = v["t"].rstrip().endswith("&")
                    if v["init"]["k"] == "lambda":
                        s.env[v["d"]] = ("lam", v["init"])
                        nx.append(s)
                        continue
                    for s2, x in self.ev(v["init"], s):
                        s2.env[v["d"]] = x if ref else self.load(s2, x)
                        nx.append(s2)
                sts = nx
            return sts
        if k == "return":
            for s in sts:
                if n.get("e") is None:
                    done.append(s)
                    continue
                for s2, x in self.ev(n["e"], s):
                    s2.ret = self.load(s2, x) if x is not None else None
                    done.append(s2)
            return []
        if k == "if":
            out = []
            for s in sts:
                pre = self.stmt(n["init"], [s], done) if n.get("init") else [s]
                for s0 in pre:
                    pre2 = [s0]
                    if n.get("var") is not None:
                        pre2 = self.stmt(n["var"] if n["var"].get("k") == "decl" else {"k": "decl", "v": [n["var"]]}, [s0], done)
                    for s1 in pre2:
                        for s2, c in self.truth(n["c"], s1):
                            out += self.stmt(n["a"] if c else n.get("b"), [s2], done)
            return out
        if k == "switch":
            return self.switch(n, sts, done)
        if k in ("nop", "null_stmt"):
            return sts
        if k == "rfor":
            return self.rfor(n, sts, done)
        if k in ("for", "while", "do"):
            raise Unsupported(k)
        if k in ("break", "continue"):
            for s in sts:
                s.env["#jump"] = k
                done.append(s)
            return []
        out = []
        for s in sts:
            out += [s2 for s2, _ in self.ev(n, s)]
        return out

    def rfor(self, n, sts, done):
        raise Unsupported("loop")

    def switch(self, n, sts, done):
        out = []
        body = n["body"]["c"]
        for s in sts:
            for s1, v in self.ev(n["c"], s):
                v = self.load(s1, v)
                for s2, start in self.cases(v, body, s1):
                    if start is None:
                        out.append(s2)
                        continue
                    inner = []
                    live = [s2]
                    for c in body[start:]:
                        c2 = c
                        while c2 is not None and c2["k"] in ("case", "default"):
                            c2 = c2.get("s")
                        live = self.stmt(c2, live, inner)
                    for x in inner:
                        if x.env.pop("#jump", None) == "break":
                            live.append(x)
                        else:
                            done.append(x)
                    out += live
        return out

    def cases(self, v, body, s):
        if not isinstance(v, str):
            raise Unsupported("switch")
        dflt = None
        for i, c in enumerate(body):
            x = c
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "case" and x["v"].get("n") == v:
                    return [(s, i)]
                if x["k"] == "default":
                    dflt = i
                x = x.get("s")
        return [(s, dflt)]

    def uninit(self, v):
        t = v["t"].replace("const ", "")
        if t == "slinky::expr":
            return UNDEF
        if t == "slinky::interval_expr":
            return Rec(t, {"min": UNDEF, "max": UNDEF})
        if t.startswith("std::optional"):
            return ("none",)
        return None

    # -- conditions
    def truth(self, n, s):
        k = n["k"]
        if k == "paren" or (k == "cast" and "e" in n):
            return self.truth(n["e"], s)
        if k == "un" and n["op"] == "!":
            return [(a, not b) for a, b in self.truth(n["e"], s)]
        if k == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s2, b in self.truth(n["L"], s):
                if b == (n["op"] == "&&"):
                    out += self.truth(n["R"], s2)
                else:
                    out.append((s2, b))
            return out
        if k == "decl":
            out = []
            for s2 in self.stmt(n, [s], []):
                out += self.as_bool(s2, self.load(s2, ("loc", n["v"][0]["d"], ())))
            return out
        if n.get("cv") is not None and k not in ("call",):
            return [(s, bool(n["cv"]))]
        out = []
        for s2, v in self.ev(n, s):
            out += self.as_bool(s2, self.load(s2, v) if v is not None else None)
        return out

    def as_bool(self, s, v):
        if isinstance(v, bool):
            return [(s, v)]
        if isinstance(v, tuple) and v and v[0] == "some":
            return [(s, True)]
        if isinstance(v, tuple) and v and v[0] == "none":
            return [(s, False)]
        if isinstance(v, Node):
            return [(s, v.fields is not None)]
        if isinstance(v, Term):
            return self.split(s, "!=", v, C(0))
        if isinstance(v, tuple) and v and v[0] == "unknown":
            a, b = s.copy(), s.copy()
            a.exact = b.exact = False
            return [(a, True), (b, False)]
        raise Unsupported("condition")

    INV = {"==": "!=", "!=": "==", "<": ">=", "<=": ">"}

    def split(self, s, rel, a, b):
        """A comparison of numbers the code makes itself."""
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            return [(s, {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y}[rel])]
        if a == b:
            return [(s, rel in ("==", "<="))]
        t, f = s.copy(), s.copy()
        t.fact(rel, a, b)
        inv = self.INV[rel]
        if inv in (">", ">="):
            f.fact("<" if inv == ">" else "<=", b, a)
        else:
            f.fact(inv, a, b)
        return [(t, True), (f, False)]

    def known(self, s, *facts):
        """A test that is true only if the facts hold; false says nothing."""
        t = s.copy()
        for f in facts:
            t.fact(*f)
        return [(t, True), (s.copy(), False)]

    # -- expressions
    def ev(self, n, s):
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if n.get("cv") is not None and k not in ("call",):
            if n.get("dk") == "enum" or (k == "ref" and n.get("q", "").startswith("slinky::") and "enum" in str(n.get("dk"))):
                return [(s, n["n"])]
            t = n.get("t", "")
            if k != "ref" or n.get("d") not in s.env:
                return [(s, bool(n["cv"]) if t == "bool" else C(n["cv"]))]
        if m is None:
            raise Unsupported("expression " + k)
        return m(n, s)

    def e_paren(self, n, s):
        return self.ev(n["e"], s)

    def e_null(self, n, s):
        return [(s, Node("null", None))]

    def e_this(self, n, s):
        v = s.env.get("this")
        return [(s, v if isinstance(v, tuple) and v and v[0] == "loc" else ("loc", "this", ()))]

    def e_cast(self, n, s):
        c = cls_of(n.get("to") or n.get("t") or "")
        out = []
        for s2, v in self.ev(n["e"], s):
            x = self.load(s2, v) if v is not None else None
            if isinstance(x, Node) and x.fields is None and c:
                out.append((s2, Node(c, None)))
            else:
                out.append((s2, v))
        return out

    def e_defarg(self, n, s):
        return self.ev(n["e"], s)

    def e_lambda(self, n, s):
        return [(s, ("lam", n))]

    def e_ref(self, n, s):
        if n.get("n") == "nullopt":
            return [(s, ("none",))]
        if n.get("d") in s.env:
            return [(s, ("loc", n["d"], ()))]
        raise Unsupported("variable " + n["n"])

    def e_mem(self, n, s):
        out = []
        for s2, b in self.ev(n["b"], s):
            if isinstance(b, tuple) and b and b[0] == "loc":
                out.append((s2, ("loc", b[1], tuple(b[2]) + (n["n"],))))
            else:
                out.append((s2, self.field(s2, b, n["n"])))
        return out

    def e_idx(self, n, s):
        out = []
        for s2, i in self.ev(n["i"], s):
            i = self.load(s2, i)
            if not (isinstance(i, Term) and i.op == "c"):
                raise Unsupported("index")
            for s3, b in self.ev(n["b"], s2):
                if isinstance(b, tuple) and b and b[0] == "loc":
                    out.append((s3, ("loc", b[1], tuple(b[2]) + (i.args[0],))))
                else:
                    out.append((s3, b[i.args[0]]))
        return out

    def e_cond(self, n, s):
        out = []
        for s2, c in self.truth(n["c"], s):
            out += self.ev(n["a"] if c else n["b"], s2)
        return out

    def e_un(self, n, s):
        op = n["op"]
        if op == "!":
            return self.truth(n, s)
        out = []
        for s2, v in self.ev(n["e"], s):
            if op in ("*", "&"):
                out.append((s2, v))
                continue
            x = self.load(s2, v)
            if op == "-" and isinstance(x, Term):
                out.append((s2, C(-x.args[0]) if x.op == "c" else Term("sub", C(0), x)))
            else:
                raise Unsupported(op)
        return out

    def e_bin(self, n, s):
        op = n["op"]
        if op in ("&&", "||"):
            return self.truth(n, s)
        if op == ",":
            return [r for s2, _ in self.ev(n["L"], s) for r in self.ev(n["R"], s2)]
        out = []
        if op == "=":
            for s2, r in self.ev(n["R"], s):
                rv = self.load(s2, r)
                for s3, l in self.ev(n["L"], s2):
                    self.store(s3, l, rv)
                    out.append((s3, l))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            for s2, r in self.ev(n["R"], s):
                rv = self.load(s2, r)
                for s3, l in self.ev(n["L"], s2):
                    for s4, v in self.arith(s3, op[:-1], self.load(s3, l), rv):
                        self.store(s4, l, v)
                        out.append((s4, l))
            return out
        for s2, l in self.ev(n["L"], s):
            lv = self.load(s2, l)
            for s3, r in self.ev(n["R"], s2):
                out += self.arith(s3, op, lv, self.load(s3, r))
        return out

    def arith(self, s, op, a, b):
        """Arithmetic of plain integers."""
        if isinstance(a, str) and isinstance(b, str):
            if op in ("==", "!="):
                return [(s, (a == b) == (op == "=="))]
        if isinstance(a, bool):
            a = C(a)
        if isinstance(b, bool):
            b = C(b)
        if isinstance(a, Node) or isinstance(b, Node):
            raise Unsupported("pointer comparison")
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Unsupported("operands of " + op)
        if op in (">", ">="):
            a, b = b, a
            op = "<" if op == ">" else "<="
        if op in ("<", "<=", "==", "!="):
            return self.split(s, op, a, b)
        if op in ("+", "-", "*"):
            if a.op == "c" and b.op == "c":
                x, y = a.args[0], b.args[0]
                return [(s, C({"+": x + y, "-": x - y, "*": x * y}[op]))]
            return [(s, Term(EXPR_OP[op], a, b))]
        raise Unsupported(op)

    def e_ilist(self, n, s):
        t = (n.get("t") or "").replace("const ", "").strip()
        if t.startswith("slinky::interval_expr") and "[" not in t and len(n["c"]) in (0, 2):
            return self.construct(t, n["c"], s)
        if "[" in t or "initializer_list" in t or "vector" in t:
            return [(s2, vs) for s2, vs in self.evs(n["c"], s)]
        if len(n["c"]) == 1:
            return self.ev(n["c"][0], s)
        return self.construct(t, n["c"], s)

    def e_ctor(self, n, s):
        return self.construct((n.get("rec") or n.get("t") or "").replace("const ", ""), n["args"], s, n)

    def construct(self, t, args, s, n=None):
        t = t.strip()
        given = args
        args = [a for a in args if a["k"] != "defarg"]
        if t in ("slinky::expr", "slinky::expr_ref"):
            if not args:
                return [(s, UNDEF)]
            out = []
            for s2, vs in self.evs(args[:1], s):
                v = vs[0]
                if isinstance(v, bool):
                    v = C(v)
                if isinstance(v, Node):
                    v = v.term()
                if not isinstance(v, Term):
                    raise Unsupported("expr of %r" % (v,))
                out.append((s2, v))
            return out
        if t == "slinky::interval_expr":
            if not args:
                return [(s, Rec(t, {"min": UNDEF, "max": UNDEF}))]
            if len(args) == 1:
                return self.ev(args[0], s)
            return [(s2, Rec(t, {"min": a, "max": b})) for s2, (a, b) in self.evs(args, s)]
        if t.startswith("std::optional"):
            if not args:
                return [(s, ("none",))]
            out = []
            for s2, (v,) in self.evs(args, s):
                out.append((s2, v if isinstance(v, tuple) and v and v[0] in ("some", "none") else ("some", v)))
            return out
        if t.startswith("std::integral_constant"):
            return [(s, True)]
        if "vector" in t or "initializer_list" in t or "array" in t:
            if len(args) == 1:
                return self.ev(args[0], s)
            return [(s2, vs) for s2, vs in self.evs(args, s)]
        if n is not None and n.get("fid"):
            f = self.prog.callee(n["fid"])
            if f is not None and f.body is not None and not n.get("move") and not n.get("copy"):
                out = []
                for s2, vs in self.evs(given, s):
                    d = self.fresh("obj")
                    s2.env[d] = Rec(t, {})
                    for s3, _ in self.run(f, vs, s2, this=("loc", d, ())):
                        out.append((s3, s3.env[d]))
                return out
        if len(args) == 1:
            return self.ev(args[0], s)
        if args:
            return [(s2, Rec(t, dict(enumerate(vs)))) for s2, vs in self.evs(args, s)]
        return [(s, Rec(t, {}))]

    def evs(self, args, s, byref=()):
        res = [(s, [])]
        for i, a in enumerate(args):
            nx = []
            for s2, vs in res:
                for s3, v in self.ev(a, s2):
                    if v is not None and i not in byref:
                        v = self.load(s3, v)
                    nx.append((s3, vs + [v]))
            res = nx
        return res

    # -- calls
    def e_call(self, n, s):
        fn = n.get("fn") or ""
        last = fn.split("::")[-1].split("<")[0]
        op = n.get("op")
        args = [a for a in n["args"] if a["k"] != "defarg"]
        pt = n.get("pt") or []
        if last in ("move", "forward") and len(args) == 1 and fn.startswith("std::"):
            return self.ev(args[0], s)
        for key in (n.get("fid"), fn, last):
            if key in self.special:
                r = self.special[key](self, n, s)
                if r is not None:
                    return r
        if last == "swap" and len(args) == 2:
            out = []
            for s2, (a, b) in self.evs(args, s, (0, 1)):
                x, y = self.load(s2, a), self.load(s2, b)
                self.store(s2, a, y)
                self.store(s2, b, x)
                out.append((s2, None))
            return out
        if op == "=" and len(args) == 2:
            out = []
            for s2, r in self.ev(args[1], s):
                rv = self.load(s2, r)
                for s3, l in self.ev(args[0], s2):
                    lv = None
                    lt = args[0].get("t", "")
                    if lt.replace("const ", "").startswith("std::optional") and not (isinstance(rv, tuple) and rv and rv[0] in ("some", "none")):
                        rv = ("some", rv)
                    self.store(s3, l, rv)
                    out.append((s3, l))
            return out
        rec = (n.get("rec") or "").replace("const ", "")
        if rec.startswith("std::optional"):
            o = n.get("obj") or args[0]
            out = []
            for s2, v in self.ev(o, s):
                x = self.load(s2, v)
                if last in ("operator bool", "has_value"):
                    out += self.as_bool(s2, x)
                elif op == "*" or last == "value":
                    if not (isinstance(x, tuple) and x and x[0] == "some"):
                        continue
                    out.append((s2, x[1]))
                elif op == "->":
                    out.append((s2, x[1] if isinstance(x, tuple) and x[0] == "some" else x))
                else:
                    raise Unsupported("optional " + last)
            return out
        if rec.startswith("std::vector") or rec.startswith("std::initializer_list") or rec.startswith("std::array"):
            o = n.get("obj") or args[0]
            for s2, v in self.ev(o, s):
                x = self.load(s2, v)
                if last == "size":
                    return [(s2, C(len(x)))]
                if op == "[]":
                    i = self.ev(args[-1], s2)[0][1]
                    i = self.load(s2, i)
                    if not (isinstance(i, Term) and i.op == "c") or not 0 <= i.args[0] < len(x):
                        raise Unsupported("index")
                    if isinstance(v, tuple) and v[0] == "loc":
                        return [(s2, ("loc", v[1], tuple(v[2]) + (i.args[0],)))]
                    return [(s2, x[i.args[0]])]
            raise Unsupported("vector " + last)
        if op == "()" and n.get("lam") is not None:
            return self.call_lambda(n, s)
        b = self.builtin(n, last, op, args, pt, s)
        if b is not None:
            return b
        return self.inline(n, last, args, s)

    def inline(self, n, last, args, s):
        f = self.prog.callee(n["fid"]) if n.get("fid") else None
        if f is None or f.body is None:
            raise Unsupported("call of " + (n.get("fn") or "?"))
        out = []
        objs = [(s, None)]
        real = args
        if n.get("obj") is not None:
            objs = self.ev(n["obj"], s)
        elif n.get("op") and f.kind == "method" and not f.static:
            objs = self.ev(args[0], s)
            real = args[1:]
        byref = [i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("&") and not p["t"].startswith("const")]
        for s1, o in objs:
            if o is not None and not (isinstance(o, tuple) and o and o[0] == "loc"):
                d = self.fresh("obj")
                s1.env[d] = o
                o = ("loc", d, ())
            for s2, vs in self.evs(real, s1, byref):
                out += self.run(f, vs, s2, this=o)
        return out

    def call_lambda(self, n, s):
        lam = self.load(s, self.ev(n["args"][0], s)[0][1])
        if not (isinstance(lam, tuple) and lam[0] == "lam"):
            raise Unsupported("lambda")
        lam = lam[1]
        body, params = lam.get("body"), lam.get("params", [])
        for i in lam.get("insts") or []:
            if i.get("fid") == n.get("fid") and i.get("body"):
                body, params = i["body"], i["params"]
        out = []
        for s2, vs in self.evs(n["args"][1:], s):
            s2 = s2.copy()
            for p, v in zip(params, vs):
                s2.env[p["d"]] = v
            done = []
            live = self.stmt(body, [s2], done)
            for st in done + live:
                v = st.ret
                st.ret = None
                out.append((st, v))
        return out

    SIGN_TESTS = {"is_positive": ("<", 0), "is_negative": (">", 0), "is_non_negative": ("<=", 0), "is_non_positive": (">=", 0),
                  "is_zero": ("==", 0), "is_one": ("==", 1), "is_true": ("!=", 0), "is_false": ("==", 0)}

    def test_const(self, s, t, rel, c):
        """is_non_negative(t) etc.: true only if t is known to satisfy the relation (c rel t)."""
        if t.op == "c":
            v = t.args[0]
            return [(s, {"<": c < v, "<=": c <= v, ">": c > v, ">=": c >= v, "==": c == v, "!=": c != v}[rel])]
        if t.op in ("undef", "-inf", "+inf"):
            if t.op == "undef":
                return [(s, False)]
            return [(s, (rel in ("<", "<=")) == (t.op == "+inf") and rel not in ("==",))]
        if rel in (">", ">="):
            return self.known(s, ("<" if rel == ">" else "<=", t, C(c)))
        return self.known(s, (rel, C(c), t))

    def builtin(self, n, last, op, args, pt, s):
        q = n.get("fn") or ""
        if op in EXPR_OP and len(args) == 2 and any(exprish(a.get("t", "")) or "expr" in a.get("t", "") for a in args) \
                and not (n.get("rec") or "").endswith("interval_expr") and not any("interval_expr" in p for p in pt):
            return [(s2, Term(EXPR_OP[op], self.t(a), self.t(b))) for s2, (a, b) in self.evs(args, s)]
        if op in (">", ">=") and len(args) == 2 and all("expr" in p for p in pt):
            o = "less" if op == ">" else "less_equal"
            return [(s2, Term(o, self.t(b), self.t(a))) for s2, (a, b) in self.evs(args, s)]
        if op in ("-", "!") and len(args) == 1 and pt and "interval" not in pt[0] and not n.get("rec"):
            return [(s2, Term("sub", C(0), self.t(a)) if op == "-" else Term("logical_not", self.t(a)))
                    for s2, (a,) in self.evs(args, s)]
        if last == "make" and n.get("fn", "").startswith("slinky::") and n.get("fn").split("::")[-2] in OPS | {"call"}:
            c = n["fn"].split("::")[-2]
            out = []
            for s2, vs in self.evs(args, s):
                if c == "call":
                    out.append((s2, Term(vs[0], *[self.t(x) for x in vs[2]])))
                else:
                    out.append((s2, Term(c, *[self.t(x) for x in vs])))
            return out
        if last == "simplify" and pt:
            c = cls_of(pt[0])
            if c is not None:
                if c == "call":
                    out = []
                    for s2, vs in self.evs(args[1:], s):
                        out.append((s2, Term(vs[0], *[self.t(x) for x in vs[-1]])))
                    return out
                f = self.prog.callee(n["fid"])
                return [(s2, Term(c, *[self.t(x) for x in vs[1:]])) for s2, vs in self.evs(args, s)]
            if exprish(pt[0]):
                return self.ev(args[0], s)
        if last in ("make_binary", "make_or_eval_binary", "eval_binary") and len(args) == 2:
            m = q
            return [(s2, Term(self.targ(n), self.t(a), self.t(b))) for s2, (a, b) in self.evs(args, s)]
        if last in ("min", "max", "abs", "select", "and_then", "or_else", "clamp") and args \
                and not any("interval" in p for p in pt):
            out = []
            for s2, vs in self.evs(args, s):
                vs = [self.t(x) for x in vs]
                if last == "clamp":
                    out.append((s2, Term("min", Term("max", vs[0], vs[1]), vs[2])))
                elif all(x.op == "c" for x in vs) and last in ("min", "max"):
                    out.append((s2, C(min(x.args[0] for x in vs) if last == "min" else max(x.args[0] for x in vs))))
                else:
                    out.append((s2, Term(last, *vs)))
            return out
        if last in self.SIGN_TESTS and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                rel, c = self.SIGN_TESTS[last]
                out += self.test_const(s2, self.t(v), rel, c)
            return out
        if last == "is_constant" and len(args) == 2:
            out = []
            for s2, (v, c) in self.evs(args, s):
                out += self.test_const(s2, self.t(v), "==", c.args[0])
            return out
        if last in ("as_constant", "evaluate_constant") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                out += self.opt(s2, self.t(v), "==")
            return out
        if last in ("evaluate_constant_lower_bound", "evaluate_constant_upper_bound") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                out += self.opt(s2, self.t(v), "<=" if "lower" in last else ">=")
            return out
        if last in ("constant_lower_bound", "constant_upper_bound") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                k = V(self.fresh("K"))
                s3 = s2.copy()
                s3.fact("<=", *((k, self.t(v)) if "lower" in last else (self.t(v), k)))
                out.append((s3, k))
            return out
        if last in ("prove_true", "prove_constant_true", "prove_false", "prove_constant_false") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                if v.op == "undef":
                    out.append((s2, False))
                else:
                    out += self.known(s2, ("!=" if "true" in last else "==", self.t(v), C(0)))
            return out
        if last == "point" and len(args) == 1:
            return [(s2, Rec("slinky::interval_expr", {"min": self.t(v), "max": self.t(v)})) for s2, (v,) in self.evs(args, s)]
        if last == "negative_infinity":
            return [(s, NEG)]
        if last == "positive_infinity":
            return [(s, POS)]
        if last in ("strip_boolean", "boolean") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                v = self.t(v)
                if last == "boolean":
                    out.append((s2, v if v.op == "undef" else Term("not_equal", v, C(0))))
                elif v.op in ("undef", "c"):
                    out.append((s2, v))
                else:
                    w = V(self.fresh("w"))
                    s3 = s2.copy()
                    s3.fact("bool=", w, v)
                    out.append((s3, w))
            return out
        if last == "is_boolean" and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s):
                v = self.t(v)
                if v.op in BOOL:
                    out.append((s2, True))
                elif v.op == "c":
                    out.append((s2, v.args[0] in (0, 1)))
                else:
                    out += self.known(s2, ("isbool", v, v))
            return out
        obj = n.get("obj")
        if obj is not None:
            ot = (n.get("rec") or obj.get("t", "")).replace("const ", "").replace("&", "").strip()
            if ot == "slinky::interval_expr" and last in ("is_point", "as_point"):
                out = []
                for s2, o in self.ev(obj, s):
                    o = self.load(s2, o)
                    for s3, vs in self.evs(args, s2):
                        a, b = o.f["min"], o.f["max"]
                        if UNDEF in (a, b):
                            out.append((s3, False if last == "is_point" else UNDEF))
                            continue
                        fs = [("==", a, b)] + [("==", a, self.t(v)) for v in vs]
                        if a == b and not vs:
                            r = [(s3, True)]
                        elif (a.op in ("-inf", "+inf") or b.op in ("-inf", "+inf")):
                            r = [(s3, False)]
                        else:
                            r = self.known(s3, *fs)
                        out += r if last == "is_point" else [(x, a if y else UNDEF) for x, y in r]
                return out
            if exprish(ot) and last in ("defined", "same_as", "as"):
                out = []
                for s2, o in self.ev(obj, s):
                    o = self.t(self.load(s2, o))
                    if last == "defined":
                        out.append((s2, o.op != "undef"))
                    elif last == "same_as":
                        for s3, (v,) in self.evs(args, s2):
                            v = self.t(v)
                            if UNDEF in (v, o):
                                out.append((s3, v == o))
                            else:
                                out += self.known(s3, ("==", o, v))
                    else:
                        out += self.as_class(s2, o, cls_of(n.get("t", "")))
                return out
        if last == "as" and n.get("obj") is not None:
            return None
        return None

    def targ(self, n):
        """The IR class a template function is instantiated with."""
        fid = n.get("fid") or ""
        i = fid.find("<slinky::")
        if i < 0:
            raise Unsupported("template argument")
        return fid[i + 9:fid.index(">", i)]

    def t(self, v):
        if isinstance(v, bool):
            return C(v)
        if isinstance(v, Node):
            return v.term()
        if not isinstance(v, Term):
            raise Unsupported("not an expression: %r" % (v,))
        return v

    def opt(self, s, t, rel):
        if t.op == "c":
            return [(s, ("some", t))]
        if t.op in ("undef", "-inf", "+inf"):
            return [(s, ("none",))]
        k = V(self.fresh("K"))
        a, b = s.copy(), s.copy()
        if rel == "==":
            a.fact("==", k, t)
        elif rel == "<=":
            a.fact("<=", k, t)
        else:
            a.fact("<=", t, k)
        return [(a, ("some", k)), (b, ("none",))]

    def as_class(self, s, o, c):
        if c is None:
            raise Unsupported("as")
        if o.op == "undef":
            return [(s, Node(c, None))]
        if o.op == "c":
            return [(s, Node(c, {"value": o} if c == "constant" else None))]
        if o.op == "v":
            if c == "variable":
                b = s.copy()
                a = s.copy()
                return [(a, Node(c, {"self": o})), (b, Node(c, None))]
            if c == "constant":
                k = V(self.fresh("K"))
                a = s.copy().fact("==", k, o)
                return [(a, Node(c, {"value": k})), (s.copy(), Node(c, None))]
            if c not in OPS:
                raise Unsupported("as " + c)
            fs = FIELDS.get(c, ("a", "b"))
            subs = [V(self.fresh(o.args[0] + "_" + f)) for f in fs]
            a = s.copy().fact("==", o, Term(c, *subs))
            return [(a, Node(c, dict(zip(fs, subs)))), (s.copy(), Node(c, None))]
        if o.op == c:
            return [(s, Node(c, dict(zip(FIELDS.get(c, ("a", "b")), o.args))))]
        return [(s, Node(c, None))]


BOOL = {"less", "less_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not", "and_then", "or_else"}
