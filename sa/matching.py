"""What a structural comparison of two trees compares: one side is the parameter `op` of a visit function, the other what a field
of the comparing object points to."""
from .flow import C, TRUE, FALSE
from .ir import strip, EXPR_BASE, STMT_BASE
from .program import walk_fn
from .shape import ShapeInterp

SCALAR = ("bool", "char", "int", "unsigned int", "long", "unsigned long", "short", "float", "double", "long long", "unsigned long long",
          "signed char", "unsigned char", "unsigned short")
SELF = "<self>"


def comparisons(prog, rec, field):
    """Names of the comparisons of two values: a function of two arguments of the same type that says whether they match and
    records the difference. Other predicates of two arguments are followed like any other function."""
    out = set()
    for f in prog.functions:
        if f.recq != rec or f.dep or not f.body or len(f.params) != 2 or f.rt != "bool":
            continue
        if strip(f.params[0]["t"]) != strip(f.params[1]["t"]):
            continue
        for x in walk_fn(f):
            if x["k"] == "bin" and x["op"] == "=" and x["L"]["k"] == "mem" and x["L"]["n"] == field:
                out.add(f.n)
    return out


class MatchInterp(ShapeInterp):
    MAX_STATES = 96

    def __init__(self, prog, nodes, rec, field):
        super().__init__(prog, nodes)
        self.rec, self.field = rec, field
        self.names = comparisons(prog, rec, field)
        self.seen = {}

    def leaf_type(self, t):
        t = t.replace("&", "").strip()
        if t.rstrip().endswith("*"):
            return True
        t = strip(t)
        return t in SCALAR or t in self.prog.enums

    def slot_raw(self, loc):
        path = []
        while True:
            if loc[0] == "fld":
                path.append(loc[2].lstrip("#"))
                loc = loc[1]
            elif loc[0] == "elem":
                path.append(("[]", loc[2]))
                loc = loc[1]
            elif loc[0] == "deref":
                b = loc[1]
                if b[0] == "init" and b[1][0] == "var" and b[1][1] == self.opd:
                    return tuple(reversed(path))
                if b[0] == "init" and self.of_this(b[1]):
                    return (SELF,) + tuple(reversed(path))
                return None
            elif loc[0] == "init":
                loc = loc[1]
            else:
                return None

    def of_this(self, x):
        n = 0
        while x[0] == "fld":
            x = x[1]
            n += 1
        return n > 0 and x[0] in ("this", "deref") and (x[0] == "this" or x[1][0] == "init" and x[1][1][0] == "this")

    def side(self, s, v):
        """(is it the other side, path) of a compared value; path () is the node itself."""
        if v is None:
            return None
        w = self.val(s, v)
        if w[0] == "init" and w[1][0] == "var" and w[1][1] == self.opd:
            return (False, ())
        if w[0] == "init" and self.of_this(w[1]):
            return (True, ())
        if w[0] in ("!", "not"):
            return self.side(s, w[1])
        if w[0] in ("truthv", "datav"):
            p = w[1]
            return (p[0] == SELF, tuple(x for x in p if x != SELF) + ("<truth>" if w[0] == "truthv" else "<data>",))
        if w[0] == "size":
            p = self.slot(s, w[1])
            if p is not None:
                return (bool(p) and p[0] == SELF, tuple(x for x in p if x != SELF) + ("<size>",))
        p = self.slot(s, v)
        if p is None:
            p = self.slot(s, w)
        if p is None or not p:
            return None
        return (p[0] == SELF, tuple(x for x in p if x != SELF))

    def compared(self, s, n, a, b):
        x, y = self.side(s, a), self.side(s, b)
        if x is None or y is None:
            s = s.copy()
            s.chk = s.chk.add(("unk",))
        elif x[0] == y[0]:
            s = s.copy()
            s.chk = s.chk.add(("self-cmp", self.plain(x[1])))
        elif x[1] != y[1]:
            s = s.copy()
            s.chk = s.chk.add(("cross", self.plain(x[1]), self.plain(y[1])))
        t = s.copy()
        if x is not None and y is not None and x[0] != y[0] and x[1] == y[1]:
            p = self.plain(x[1])
            t.chk = t.chk.add(("cmp", p))
            self.seen[(p, x[0])] = n
        # Nothing is asked of the paths on which a difference was found.
        return [(t, TRUE)]

    def special(self, s, n, f, obj, args, frame):
        fn = n.get("fn", "")
        name = fn.split("::")[-1]
        rec = strip(n["rec"]) if isinstance(n.get("rec"), str) else None
        pts = n.get("pt", [])
        if rec == self.rec and name in self.names and len(args) == 2 and len(pts) == 2 and n.get("t") == "bool" and strip(pts[0]) == strip(pts[1]) and self.leaf_type(pts[0]):
            return self.compared(s, n, args[0], args[1])
        if name == "operator bool" and obj is not None:
            p = self.slot(s, obj)
            if p is not None and p:
                return [(s, ("truthv", p))]
        if name in ("get", "data") and obj is not None and not args:
            p = self.slot(s, obj)
            if p is not None and p and rec not in ("slinky::expr", "slinky::stmt"):
                return [(s, ("datav", p))]
        return None

    def hook_write(self, s, loc, val, n, frame):
        if loc[0] == "fld" and loc[2].lstrip("#") == self.field and loc[1][0] in ("this", "deref"):
            v = self.val(s, val)
            s = s.copy()
            if v[0] == "c":
                if v[1] != 0:
                    s.chk = s.chk.add(("diff",))
            else:
                s.chk = s.chk.add(("unk",))
            s.store[loc] = v
            return s
        return super().hook_write(s, loc, val, n, frame)

    def same(self, s, n, a, b, neg=False):
        x, y = self.side(s, a), self.side(s, b)
        T, F = (FALSE, TRUE) if neg else (TRUE, FALSE)
        if x is not None and y is not None and x[0] == y[0] and x[1] != y[1]:
            t = s.copy()
            t.chk = t.chk.add(("same2", x[0]) + tuple(sorted((self.plain(x[1]), self.plain(y[1])))))
            return [(t, T), (s, F)]
        if x is not None and y is not None and x[0] != y[0] and x[1] == y[1]:
            t = s.copy()
            t.chk = t.chk.add(("cmp", self.plain(x[1])))
            return [(t, T), (s, F)]
        return [(s, T), (s, F)]


class LeafInterp(ShapeInterp):
    """A comparison of two scalars, pointers or nodes: what is known about them when it says they match."""

    def __init__(self, prog, nodes, rec, field, p0, p1):
        super().__init__(prog, nodes)
        self.rec, self.field, self.ps = rec, field, (p0, p1)
        self.names = comparisons(prog, rec, field)
        self.files = {f.file for f in prog.functions if f.recq == rec and f.n in self.names}

    def inline_ok(self, f, n):
        return f.n not in self.names and f.n not in ("visit", "accept") and f.file in self.files and f.recq in (self.rec, None, "") and f.body is not None

    def param(self, s, v):
        v = self.val(s, v)
        for i, p in enumerate(self.ps):
            if v[0] == "init" and v[1][0] == "var" and v[1][1] == p:
                return i
        return None

    def client_call(self, s, n, f, obj, args, frame):
        name = n.get("fn", "").split("::")[-1]
        rec = strip(n["rec"]) if isinstance(n.get("rec"), str) else None
        pts = n.get("pt", [])
        if rec == self.rec and name in self.names and len(args) == 2 and n.get("t") == "bool":
            t, u = s.copy(), s.copy()
            t.chk = t.chk.add(("sub", repr(args[0]) + repr(self.val(s, args[0])), repr(args[1]) + repr(self.val(s, args[1])), self.param(s, args[0]), self.param(s, args[1])))
            u.chk = u.chk.add(("diff",))
            return [(t, TRUE), (u, FALSE)]
        if name == "visit" and args and self.param(s, args[0]) == 1 or name == "accept" and obj is not None and "'%s'" % "var" in repr(obj) and self.deref_param(s, obj) == 1:
            own = any(k[0] == "fld" and self.param(s, v) == 0 for k, v in s.store.items())
            s = s.copy()
            s.chk = s.chk.add(("deep", own))
            return [(s, ("void",))]
        if any(isinstance(self.val(s, a), tuple) and self.val(s, a)[0] == "lam" for a in args):
            s = s.copy()
            s.chk = s.chk.add(("foreach",))
            return [(s, ("void",))]
        if name == "memcmp":
            s = s.copy()
            s.chk = s.chk.add(("foreach",))
        return None

    def hook_construct(self, s, n, args, frame):
        if (n.get("copy") or n.get("move")) or not args:
            return super().hook_construct(s, n, args, frame)
        return [(s, ("agg", tuple((str(i), self.val(s, a)) for i, a in enumerate(args))))]

    def deref_param(self, s, obj):
        o = self.resolve_loc(s, obj)
        return self.param(s, o[1]) if o[0] == "deref" else None

    def hook_write(self, s, loc, val, n, frame):
        if loc[0] == "fld" and loc[2].lstrip("#") == self.field:
            v = self.val(s, val)
            s = s.copy()
            s.chk = s.chk.add(("diff", v[1]) if v[0] == "c" and v[1] else ("set0",) if v[0] == "c" else ("unk",))
            s.store[loc] = v
            return s
        return None


class LeafCheck:
    """The comparisons that are not made of comparisons of fields."""

    def __init__(self, res, prog, nodes, rec, field):
        self.res, self.prog, self.nodes, self.rec, self.field = res, prog, nodes, rec, field

    def run(self):
        m = MatchInterp(self.prog, self.nodes, self.rec, self.field)
        n = 0
        for f in self.prog.functions:
            if f.recq != self.rec or f.dep or not f.body or len(f.params) != 2 or f.rt != "bool":
                continue
            a, b = (strip(p["t"]) for p in f.params)
            if a != b or f.n not in m.names or not m.leaf_type(f.params[0]["t"]):
                continue
            n += 1
            self.one(f, a)
        self.res.need(n, "scalar comparisons", 4)
        self.res.count("scalar comparisons", n)

    def one(self, f, t):
        res = self.res
        p0, p1 = f.params[0]["d"], f.params[1]["d"]
        it = LeafInterp(self.prog, self.nodes, self.rec, self.field, p0, p1)
        rs = it.start(f)
        ptr = f.params[0]["t"].rstrip().endswith("*")
        node = ptr and t in (EXPR_BASE, STMT_BASE)
        buf = ptr and t.endswith("raw_buffer")
        signs = {}
        where = "%s(%s)" % (f.n, t)
        good = 0
        for s, v in rs:
            ev = s.chk.ev
            d = [e for e in ev if e[0] == "diff"]
            F = self.facts(it, s)
            if ("unk",) in ev:
                res.note("%s:%d %s: a result that was not understood" % (f.file, f.line, where))
                continue
            if d:
                for e in d:
                    if len(e) > 1:
                        for k in F:
                            if k[0] in ("<01", "<10", "null0", "null1", "<t01", "<t10") and F[k]:
                                signs.setdefault(k[0], set()).add(e[1] > 0)
                continue
            if F.get(("==",)) is True:
                good += 1
                continue
            if node or buf or ptr:
                if F.get(("null0",)) is True and F.get(("null1",)) is True:
                    continue
            if node:
                types = F.get(("==t",)) is True or (F.get(("<t01",)) is False and F.get(("<t10",)) is False)
                deep = [e for e in ev if e[0] == "deep"]
                if not types:
                    res.bad("leaf-type:" + where, f.file, f.line, "%s compares two nodes as if they had the same type without having compared their types" % where)
                elif not deep:
                    res.bad("leaf-deep:" + where, f.file, f.line, "%s takes two nodes of the same type for equal without comparing their fields" % where)
                elif not any(e[1] for e in deep):
                    res.bad("leaf-self:" + where, f.file, f.line, "%s compares the fields of a node without setting the other node" % where)
                else:
                    good += 1
                continue
            if buf and not any(k[0].startswith("<") for k in F):
                subs = [e for e in ev if e[0] == "sub"]
                for fl in ("rank", "elem_size", "dims"):
                    if not any("'%s'" % fl in e[1] and "'%s'" % fl in e[2] for e in subs):
                        if not any(e[3] == 0 and e[4] == 1 for e in subs):
                            res.bad("leaf-buffer:%s" % fl, f.file, f.line, "%s takes two buffers for equal without comparing their %s" % (where, fl))
                if not any(e[3] == 0 and e[4] == 1 for e in subs) and ("foreach",) not in ev:
                    res.bad("leaf-buffer:data", f.file, f.line, "%s takes two buffers for equal without comparing their elements" % where)
                good += 1
                continue
            if F.get(("<01",)) is False and F.get(("<10",)) is False:
                good += 1
                continue
            res.bad("leaf:" + where, f.file, f.line, "%s can take two different values for equal" % where)
        for a, b in (("<01", "<10"), ("null0", "null1"), ("<t01", "<t10")):
            if a in signs and b in signs and signs[a] & signs[b]:
                res.bad("order:%s:%s" % (where, a), f.file, f.line, "%s gives the same order both ways round" % where)
        if good:
            res.ok("%s: %d equal paths" % (where, good))

    def facts(self, it, s):
        out = {}
        for k, v in s.facts.items():
            if k[0] in ("<", "=="):
                a, b = it.param(s, k[1]) if k[1][0] != "c" else None, it.param(s, k[2]) if k[2][0] != "c" else None
                if a is not None and b is not None:
                    out[("==",) if k[0] == "==" else ("<%d%d" % (a, b),)] = v
                    continue
                x, y = self.type_of(it, s, k[1]), self.type_of(it, s, k[2])
                if x is not None and y is not None and x != y:
                    out[("==t",) if k[0] == "==" else ("<t%d%d" % (x, y),)] = v
                if a is not None and k[2] == ("null",):
                    out[("null%d" % a,)] = v
            p = it.param(s, k) if k[0] == "init" else None
            if p is not None:
                out[("null%d" % p,)] = not v
        return out

    def type_of(self, it, s, v):
        if v[0] == "init" and v[1][0] == "fld" and v[1][2].lstrip("#") == "type" and v[1][1][0] == "deref":
            return it.param(s, v[1][1][1])
        return None
