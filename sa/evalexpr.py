"""What the interpreter computes for each kind of expression, as terms over opaque values of the operands.

The function under analysis is called with an expression of a known kind. Evaluating an operand yields an opaque value named
after its place in the node, and the path remembers which operands it evaluated.
"""
from .kernel import P, S, Unsupported
from .views import Views, Split, isloc, ONE

ROOT = ("op",)


class EvalExpr(Views):
    def __init__(self, prog, kinds, buffer=None):
        Views.__init__(self, prog)
        self.kinds = kinds          # path -> value of its type enumerator
        self.arrays["bufdims"] = "content"

    def state(self, kinds=(), **flags):
        s = S()
        s.env["this"] = ("self",)
        s.env["buf"] = ("rec", {"base": P.a("base"), "elem_size": P.a("elem_size"), "rank": P.a("rank"), "dims": ("aptr", "bufdims", P.c(0))})
        s.add(P.a("rank"))
        s.env["broadcast"] = ("rec", dict(min_=P.c(0), max_=P.c(0), stride_=P.c(0), fold_factor_=P.c(0)))
        return s

    def kind(self, s, path):
        return self.kinds.get(path)

    def step(self, n, s, done, depth):
        if n["k"] == "switch":
            return self.switch(n, s, done)
        if n["k"] in ("case", "default"):
            return self.step(n["s"], s, done, depth)
        if n["k"] == "rfor":
            return self.rfor(n, s, done)
        return Views.step(self, n, s, done, depth)

    def switch(self, n, s, done):
        items = n["body"]["c"] if n["body"]["k"] == "block" else [n["body"]]
        labels = []     # (value or None, index)
        flat = []
        for it in items:
            while it is not None and it["k"] in ("case", "default"):
                if it["k"] == "case":
                    v = it["v"].get("cv")
                    if v is None and it["v"].get("e"):
                        v = it["v"]["e"].get("cv")
                    if v is None:
                        raise Unsupported("case label")
                    labels.append((int(v), len(flat)))
                else:
                    labels.append((None, len(flat)))
                it = it["s"]
            flat.append(it)
        out = []
        for s2, v in self.ev(n["c"], s):
            v = self.num(s2, v)
            if not isinstance(v, P):
                raise Unsupported("switch value")
            todo = [(s2, v)]
            for val, i in [x for x in labels if x[0] is not None]:
                nx = []
                for s3, v3 in todo:
                    for s4, eq in self.split_eq(s3, v3, P.c(val)):
                        if eq:
                            out += self.runfrom(flat[i:], s4, done)
                        else:
                            nx.append((s4, self.fixed(s4, v3, len(s3.sub))))
                todo = nx
            d = [i for x, i in labels if x is None]
            for s3, _ in todo:
                out += self.runfrom(flat[d[0]:], s3, done) if d else [s3]
        return out

    def runfrom(self, stmts, s, done):
        sts = [s]
        for c in stmts:
            sts = self.stmt(c, sts, done)
        for x in sts:
            if x.env.get("!sig") == "break":
                x.env.pop("!sig")
        return sts

    # a loop over the elements of a list of the node
    def rfor(self, n, s, done):
        out = []
        for s2, r in self.ev(n["range"], s):
            r = self.load(s2, r) if isloc(r) else r
            if not (isinstance(r, tuple) and r[0] == "node"):
                raise Unsupported("range")
            i = "rf%s" % n["id"] if "id" in n else "rf%s" % n["l"]
            s2.env[i] = P.c(0)
            size = self.nodeval(s2, r[1], "size")
            s2.add(size)
            s2.env[i + "e"] = size
            fake = {"k": "for", "l": n["l"], "init": None,
                    "c": {"k": "bin", "op": "<", "l": n["l"], "t": "bool", "L": {"k": "envref", "d": i}, "R": {"k": "envref", "d": i + "e"}},
                    "inc": {"k": "un", "op": "++", "l": n["l"], "t": "long", "e": {"k": "envref", "d": i}},
                    "body": {"k": "block", "l": n["l"], "c": [{"k": "bindelem", "l": n["l"], "var": n["var"], "range": r, "i": i}, n["body"]]}}
            out += self.loop(fake, s2, done)
        return out

    def e_envref(self, n, s):
        return [(s, ("loc", n["d"], ()))]

    def e_bindelem(self, n, s):
        s.env[n["var"]["d"]] = ("node", n["range"][1] + (("i", s.env[n["i"]]),))
        return [(s, None)]

    def minmax(self, s, fn, a, b):
        if s.implies(b - a):
            return a if fn == "min" else b
        if s.implies(a - b):
            return b if fn == "min" else a
        raise Split(b - a, True)

    def e_call(self, n, s):
        name = n.get("fn") or ""
        last = name.split("::")[-1].split("<")[0]
        args = [a for a in n["args"] if a["k"] != "defarg"]
        if last in ("type",) and n.get("obj") is not None and not args:
            out = []
            for s2, o in self.ev(n["obj"], s):
                o = self.load(s2, o) if isloc(o) else o
                out.append((s2, self.kindval(s2, o)))
            return out
        if last in ("eval", "evaluate", "eval_non_inlined", "eval_binary") and n.get("pt") and "eval" in name and "slinky::stmt &" not in n["pt"][0] and "interval" not in n["pt"][0]:
            out = []
            f = self.prog.callee(n["fid"]) if n.get("fid") else None
            for s2, vs in self.evs(args, s, (0,)):
                path = self.node(s2, vs[0])
                if path in self.kinds or len(args) == 2 and n["pt"][1] in ("long", "slinky::index_t"):
                    out += self.run(f, vs, s2, s2.env.get("this"))
                elif len(args) == 1 or len(args) == 2 and "eval_context" in n["pt"][1]:
                    out.append(self.operand(s2, path))
                else:
                    raise Unsupported("eval with a default of " + ".".join(map(str, path)))
            return out
        if last == "abs" and len(args) == 1:
            out = []
            for s2, (a,) in self.evs(args, s):
                key = self.fresh("abs")
                s2.env[key] = self.num(s2, a)
                for s3, b in self.split_ge(s2, s2.env[key]):
                    v = s3.env.pop(key)
                    out.append((s3, v if b else -v))
            return out
        if last in ("lookup", "lookup_buffer") and "eval_context" in name:
            out = []
            for s2, (v,) in self.evs(args, s):
                v = self.load(s2, v) if isloc(v) else v
                s2.env["!looked"] = s2.env.get("!looked", ()) + (v,)
                out.append((s2, ("ptr", ("loc", "buf", ()))))
            return out
        if last == "set" and "eval_context" in name:
            out = []
            for s2, (a, b) in self.evs(args, s):
                s2.env["!set"] = s2.env.get("!set", ()) + ((a, b),)
                out.append((s2, P.a(self.fresh("old"))))
            return out
        if last == "reserve" and "eval_context" in name:
            return [(s2, None) for s2, _ in self.evs(args, s)]
        if last in ("as_variable", "as_constant") and len(args) == 1:
            out = []
            for s2, (v,) in self.evs(args, s, (0,)):
                out.append((s2, ("node", self.node(s2, v) + ("sym",))))
            return out
        if last == "size_bytes":
            return [(s, P.a("size_bytes()"))]
        if last == "to_string" or last.startswith("unreachable"):
            return [(s, None)]
        if n.get("obj") is not None and last.startswith("target"):
            raise Unsupported("target")
        return Views.e_call(self, n, s)

    def operand(self, s, path):
        s.env["!evald"] = s.env.get("!evald", ()) + (path,)
        return (s, self.nodeval(s, path, "val"))

    def kindval(self, s, o):
        if isinstance(o, tuple) and o[0] == "node":
            if o[1] in self.kinds:
                return P.c(self.kinds[o[1]])
            return self.nodeval(s, o[1], "kind")
        raise Unsupported("type of something else than the node")

    def nodeval(self, s, path, kind):
        if path in self.kinds and kind == "data":
            return P.c(self.kinds[path])
        return Views.nodeval(self, s, path, kind)

    def member(self, s, b, name):
        if isinstance(b, tuple) and b and b[0] == "node" and name == "type" and b[1] in self.kinds:
            return P.c(self.kinds[b[1]])
        return Views.member(self, s, b, name)

    def as_bool(self, s, v):
        if isinstance(v, tuple) and v and v[0] == "node" and v[1][-1] == "sym":
            return [(s, True)]
        return Views.as_bool(self, s, v)
