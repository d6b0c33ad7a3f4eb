"""What a dependency finder records for each kind of node: which symbols it looks up, which uses it marks, and what its list
of declarations looks like while it visits the parts that are in the scope of a declaration."""
from .flow import C, TRUE, FALSE
from .ir import strip, targ
from .shape import ShapeInterp
from .program import walk


class DepsInterp(ShapeInterp):
    """The record analysed has a list of (symbol, pointer to result) pairs; lookups in it are opaque."""

    def __init__(self, prog, nodes, rec, listname, restype):
        super().__init__(prog, nodes)
        self.rec, self.listname, self.restype = rec, listname, restype
        self.wrappers = {f.fid for f in prog.functions if f.recq == rec and f.body
                         and not any(x["k"] == "mem" and x.get("n") == listname for x in walk(f.body))}

    def start(self, f, q=None, pi=0):
        return super().start(f, q, pi)

    def stack(self, s):
        for e in s.chk.ev:
            if e[0] == "stk":
                return e[1]
        return ()

    def set_stack(self, s, st):
        s = s.copy()
        s.chk = s.chk.rep(ev=frozenset(e for e in s.chk.ev if e[0] != "stk") | {("stk", tuple(st))})
        return s

    def is_list(self, s, obj):
        if obj is None or not self.is_loc(obj):
            return False
        o = self.resolve_loc(s, obj)
        return o[0] == "fld" and o[2].lstrip("#") == self.listname

    def loop_enter(self, s, n, frame, it):
        s = super().loop_enter(s, n, frame, it)
        if s is not None and any(e[0] == "own" for e in s.chk.ev):
            s = s.copy()
            s.chk = s.chk.rep(ev=frozenset(e for e in s.chk.ev if e[0] != "own"))
        return s

    def decide(self, s, v):
        a, pol = self.norm(v)
        if a[0] in ("<", "==") and a[1][0] == a[2][0] == "stacksz":
            x, y = a[1][1], a[2][1]
            return (x < y if a[0] == "<" else x == y) == pol
        return super().decide(s, v)

    def range_next(self, rf, s, frame, it):
        r = super().range_next(rf, s, frame, it)
        for x in r:
            x.facts = {k: v for k, v in x.facts.items() if not ("dep" in str(k) or "needs" in str(k)) or not self.iter_in(k, rf["n"]["id"])}
        return r

    def term_written(self, term, written, frame):
        if isinstance(term, tuple) and ("'dep'" in repr(term) or "'needs'" in repr(term)):
            return self.has_loop(term)
        return super().term_written(term, written, frame)

    def visited(self, s, p):
        s = super().visited(s, p)
        if p[-1] == "second" and ("own", p[:-1]) in s.chk.ev:
            s.chk = s.chk.add(("own-scope", self.plain(p)))
        s.chk = s.chk.add(("at-stack", self.plain(p), self.stack(s)))
        return s

    def special(self, s, n, f, obj, args, frame):
        fn = n.get("fn", "")
        name = fn.split("::")[-1]
        rec = strip(n["rec"]) if isinstance(n.get("rec"), str) else None
        pts = n.get("pt", [])
        if rec == self.rec and n.get("fid") not in self.wrappers and len(args) == 1 and len(pts) == 1 and strip(pts[0]) == "slinky::var":
            t = n.get("t", "").strip()
            full = self.slot(s, args[0])
            p = self.plain(full)
            if t.endswith("*") and strip(t) == self.restype:
                key = ("dep", full if p is not None else ("?", n["id"]))
                s = s.copy()
                s.chk = s.chk.add(("look", p, self.stack(s)))
                return [(s, key)]
            if strip(t) == "bool":
                key = ("needs", full if p is not None else ("?", n["id"]))
                out = []
                for b in (True, False):
                    if s.facts.get(key, b) is b:
                        t = s.copy()
                        t.facts[key] = b
                        if p is not None:
                            t.chk = t.chk.add(("need+" if b else "need-", p))
                        out.append((t, TRUE if b else FALSE))
                return out
        if self.is_list(s, obj):
            if name in ("push_back", "emplace_back"):
                if len(args) == 1:
                    o = args[0]
                    if self.is_loc(o):
                        a = self.read_loc(s, ("fld", o, "first"))
                        b = self.read_loc(s, ("fld", o, "second"))
                        o = self.resolve_loc(s, o)
                        if o in s.store and s.store[o][0] == "agg":
                            d = dict(s.store[o][1])
                            a, b = d.get("first"), d.get("second")
                    elif o[0] == "agg":
                        d = dict(o[1])
                        a, b = d.get("first"), d.get("second")
                    elif o[0] == "ilist" and len(o[1]) == 2:
                        a, b = o[1]
                    else:
                        a = b = ("?", n["id"])
                else:
                    a, b = args[0], args[1]
                sym = self.plain(self.slot(s, a)) or ("?", n["id"])
                full = self.slot(s, a)
                if full is not None and full[-1] == "first":
                    s = s.copy()
                    s.chk = s.chk.add(("own", full[:-1]))
                b = self.val(s, b)
                if b[0] == "dep":
                    b = ("dep", self.plain(b[1]))
                what = b if b[0] == "dep" else ("dummy",) if b[0] == "addr" else ("?", n["id"])
                st = self.stack(s)
                if not st or st[-1] != (sym, what):
                    st = st + ((sym, what),)
                return [(self.set_stack(s, st), ("void",))]
            if name == "size":
                return [(s, ("stacksz", len(self.stack(s))))]
            if name == "resize" and args:
                v = self.val(s, args[0])
                st = self.stack(s)
                if v[0] == "stacksz" and v[1] <= len(st):
                    return [(self.set_stack(s, st[:v[1]]), ("void",))]
                return [(self.set_stack(s, (("?", n["id"]),)), ("void",))]
            if name == "pop_back":
                st = self.stack(s)
                return [(self.set_stack(s, st[:-1] if st else (("?", n["id"]),)), ("void",))]
            if name == "erase":
                return [(self.set_stack(s, (("?", n["id"]),)), ("void",))]
        return None

    def hook_write(self, s, loc, val, n, frame):
        if loc[0] == "fld" and loc[1][0] == "deref" and loc[1][1][0] == "dep":
            s = s.copy()
            s.chk = s.chk.add(("flag" if self.val(s, val) == TRUE else "clear", self.plain(loc[1][1][1]), loc[2].lstrip("#")))
            s.store[loc] = self.val(s, val)
            return s
        if loc[0] == "fld" and loc[1][0] in ("this", "deref") and loc[2] in ("is_pure", "has_side_effects"):
            s = s.copy()
            if loc[2] == "is_pure" and val == FALSE:
                s.chk = s.chk.add(("impure",))
            if loc[2] == "has_side_effects" and val == TRUE:
                s.chk = s.chk.add(("effect",))
            return s
        return super().hook_write(s, loc, val, n, frame)

    def same(self, s, n, a, b, neg=False):
        x, y = self.slot(s, a), self.slot(s, b)
        if x is not None and y is not None and {self.plain(x), self.plain(y)} == {("sym",), ("src",)}:
            T, F = (FALSE, TRUE) if neg else (TRUE, FALSE)
            t = s.copy()
            t.chk = t.chk.add(("symsame",))
            return [(t, T), (s, F)]
        return super().same(s, n, a, b, neg)
