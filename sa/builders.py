"""Abstract interpretation of the functions that build one expression: which node they return, with what in its places.

Expressions are opaque; a new node is a record of its fields. The meaning of the tree is then computed by `meaning`, from the
operators' names alone.
"""
from .kernel import P, S, Unsupported
from .views import Views, isloc

FIELDS = {"logical_not": ("a",), "select": ("condition", "true_value", "false_value")}


class Builder(Views):
    def __init__(self, prog):
        Views.__init__(self, prog)

    def e_new(self, n, s):
        key = self.fresh("node")
        s.env[key] = ("rec", {"!cls": n["at"].split("::")[-1]})
        return [(s, ("ptr", ("loc", key, ())))]

    def e_ctor(self, n, s):
        t = n.get("t", "").replace("const ", "")
        args = [a for a in n["args"] if a["k"] != "defarg"]
        if t == "slinky::expr" and not args:
            return [(s, ("undef",))]
        if (n.get("li") or t.startswith("std::vector")) and args and args[0]["k"] == "ilist":
            return self.ev(args[0], s)
        if t.startswith("std::vector") and len(args) == 1 or t.startswith(("slinky::expr", "slinky::var")) and len(args) == 1:
            return self.ev(args[0], s)
        if t.startswith("std::pair") and len(args) == 2:
            return [(s2, ("vec", [self.val(s2, x) for x in vs])) for s2, vs in self.evs(args, s)]
        if len(args) == 1:
            return self.ev(args[0], s)
        if t.startswith("std::function"):
            return [(s, ("undef",))]
        raise Unsupported("constructor of " + t)

    def e_ilist(self, n, s):
        out = []
        for s2, vs in self.evs(n["c"], s):
            out.append((s2, ("vec", [self.val(s2, x) for x in vs])))
        return out

    def construct(self, n, args, s):
        if len(args) == 1:
            return self.ev(args[0], s)
        return [(s2, ("vec", [self.val(s2, x) for x in vs])) for s2, vs in self.evs(args, s)]

    def e_other(self, n, s):
        c = [x for x in n.get("c", []) if x]
        if len(c) == 1:
            return self.ev(c[0], s)
        raise Unsupported(n.get("cls", "expression"))

    def val(self, s, v):
        return self.load(s, v) if isloc(v) else v

    def put(self, rec, path, v):
        if isinstance(rec, tuple) and rec[0] == "rec" and len(path) == 1:
            m = dict(rec[1])
            m[path[0]] = v
            return ("rec", m)
        return Views.put(self, rec, path, v)

    def store(self, s, loc, v):
        if isloc(v):
            v = self.load(s, v)
        return Views.store(self, s, loc, v)

    def e_call(self, n, s):
        name = n.get("fn") or ""
        last = name.split("::")[-1].split("<")[0]
        args = [a for a in n["args"] if a["k"] != "defarg"]
        if last in ("move", "forward") and len(args) == 1:
            return self.ev(args[0], s)
        if last == "swap" and name.startswith("std::"):
            out = []
            for s2, (a, b) in self.evs(args, s, (0, 1)):
                x, y = self.val(s2, a), self.val(s2, b)
                self.store(s2, a, y)
                self.store(s2, b, x)
                out.append((s2, None))
            return out
        if last == "defined" and n.get("obj") is not None:
            out = []
            for s2, o in self.ev(n["obj"], s):
                v = self.val(s2, o)
                out += [(s2, v != ("undef",))] if v[0] in ("ptr", "undef") else self.flag(s2, ("def", repr(v)))
            return out
        if last in ("should_commute", "is_boolean"):
            return self.flag(s, (last, self.fresh("q")))
        if n.get("op") == "=" and len(n["args"]) == 2:
            out = []
            for s2, (a, b) in self.evs(n["args"], s, (0,)):
                if not isloc(a):
                    a = self.deref(s2, a)
                self.store(s2, a, b)
                out.append((s2, a))
            return out
        if last == "make_constant":
            return self.ev(args[0], s)
        if last in ("min", "max") and name.startswith("std::"):
            raise Unsupported(name)
        f = self.prog.callee(n["fid"]) if n.get("fid") else None
        if f is not None and f.body is not None:
            this = None
            if n.get("obj") is not None:
                out = []
                for s2, o in self.ev(n["obj"], s):
                    this = s2.env.get("this") if n["obj"]["k"] == "this" else ("ptr", self.resolve(s2, o)) if isloc(o) else o
                    out += self.inline(f, args, s2, this)
                return out
            return self.inline(f, args, s)
        raise Unsupported("call of " + name)

    def inline(self, f, args, s, this=None):
        byref = [i for i, p in enumerate(f.params) if p["t"].rstrip().endswith("&")]
        out = []
        for s2, vs in self.evs(args, s, byref):
            out += self.run(f, vs, s2, this)
        return out

    def default(self, p, f, i):
        return P.c(-1) if p["t"] == "int" else ("undef",)

    # -- what a returned value stands for
    def tree(self, s, v):
        v = self.val(s, v)
        if isinstance(v, tuple) and v[0] == "ptr":
            r = self.load(s, v[1])
            if r[0] != "rec" or "!cls" not in r[1]:
                return self.tree(s, r) if r[0] in ("ptr", "undef", "atom") else r
            return ("node", r[1]["!cls"], {k: self.tree(s, x) for k, x in r[1].items() if k != "!cls"})
        if isinstance(v, tuple) and v[0] == "vec":
            return ("vec", [self.tree(s, x) for x in v[1]])
        return v


class Meaning(Views):
    """Values of built trees over opaque operand values; `sem` splits paths where an operator's value depends on its operands."""

    def sem(self, s, t):
        if isinstance(t, P):
            return [(s, t)]
        if isinstance(t, bool):
            return [(s, P.c(int(t)))]
        if isinstance(t, tuple) and t[0] == "atom":
            return [(s, self.fixed(s, P.a(t[1])))]
        if not (isinstance(t, tuple) and t[0] == "node"):
            raise Unsupported("the value of %r" % (t,))
        cls, m = t[1], t[2]
        if cls == "call":
            args = m["args"][1]
            name = m["intrinsic"]
        else:
            args = [m[f] for f in FIELDS.get(cls, ("a", "b"))]
            name = cls
        res = [(s, [])]
        for a in args:
            nx = []
            for s2, vs in res:
                n0 = len(s2.sub)
                for s3, v in self.sem(s2, a):
                    nx.append((s3, [self.fixed(s3, x, n0) for x in vs] + [v]))
            res = nx
        out = []
        for s2, vs in res:
            out += self.op(s2, name, vs)
        return out

    def op(self, s, name, v):
        one = lambda l: [(x, P.c(int(b))) for x, b in l]
        if name == "add":
            return [(s, v[0] + v[1])]
        if name == "sub":
            return [(s, v[0] - v[1])]
        if name == "mul":
            return [(s, v[0] * v[1])]
        if name in ("div", "mod"):
            return [(s, self.mk("ediv" if name == "div" else "emod", *v))]
        if name in ("min", "max"):
            n0 = len(s.sub)
            return [(x, self.fixed(x, v[0] if b == (name == "min") else v[1], n0)) for x, b in self.split_ge(s, v[1] - v[0])]
        if name in ("equal", "not_equal"):
            return one([(x, b == (name == "equal")) for x, b in self.split_eq(s, v[0], v[1])])
        if name == "less":
            return one([(x, not b) for x, b in self.split_ge(s, v[0] - v[1])])
        if name == "less_equal":
            return one(self.split_ge(s, v[1] - v[0]))
        if name == "logical_not":
            return one(self.split_eq(s, v[0], P.c(0)))
        if name in ("logical_and", "logical_or", "and_then", "or_else"):
            n0 = len(s.sub)
            out = []
            for x, z in self.split_eq(s, v[0], P.c(0)):
                if z == (name in ("logical_and", "and_then")):
                    out.append((x, P.c(0 if z else 1)))
                else:
                    out += one([(y, not q) for y, q in self.split_eq(x, self.fixed(x, v[1], n0), P.c(0))])
            return out
        if name == "select":
            n0 = len(s.sub)
            return [(x, self.fixed(x, v[2] if z else v[1], n0)) for x, z in self.split_eq(s, v[0], P.c(0))]
        if name == "abs":
            n0 = len(s.sub)
            return [(x, self.fixed(x, v[0] if b else -v[0], n0)) for x, b in self.split_ge(s, v[0])]
        raise Unsupported("the value of " + str(name))
