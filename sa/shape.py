"""What a function does with the parts of an IR node: which children it visits or rewrites on every path, what it builds."""
from .flow import C, TRUE, FALSE, mentions
from .ir import NodeInterp, Nodes, Chk, strip, short, targ
from .program import walk, walk_fn

WRAP = ("slinky::expr", "slinky::stmt", "slinky::expr_ref", "slinky::stmt_ref")
TREE = ("slinky::expr", "slinky::stmt", "slinky::interval_expr", "slinky::dim_expr", "slinky::expr_ref", "slinky::stmt_ref")
BUILT = TREE[:4]


class TooBig(Exception):
    pass


class ShapeInterp(NodeInterp):
    MAX_STATES = 48
    INLINE_NODES = 900

    def __init__(self, prog, nodes):
        super().__init__(prog, nodes)
        self.bools = set()
        self.makes = None        # fid -> (class, {field: param index})
        self.opaque_results = False

    # -- normal forms --------------------------------------------------------------------------------------------
    def nf(self, s, v, depth=0):
        """('o', path) original slot, ('m', path) its rewritten version, ('op',), ('agg', fields), ('vec', elems), ('undef',), or ('?', v)"""
        if v is None or depth > 12:
            return ("?", None)
        if self.is_loc(v):
            return self.nf_loc(s, v, depth)
        k = v[0]
        if k == "nfv":
            return v[1]
        if k in ("init", "loop"):
            x = self.own_element(s, v[-1], depth)
            if x is not None:
                return x
        if k == "init":
            return self.nf_raw(s, v[1], depth)
        if k == "m":
            return ("m", self.plain(v[1]))
        if k == "undefined":
            return ("undef",)
        if k == "fldv":
            b = self.nf(s, v[1], depth + 1)
            return self.nf_field(b, v[2].lstrip("#"))
        if k == "agg":
            return ("agg", tuple((n.lstrip("#"), self.nf(s, x, depth + 1)) for n, x in v[1]))
        if k == "vec":
            return v
        if k == "mk":
            return v
        if k == "ilist":
            return ("vec", frozenset(self.nf(s, x, depth + 1) for x in v[1]))
        if k == "addr":
            return self.nf(s, v[1], depth + 1)
        if k == "refto":
            return self.nf_loc(s, v[1], depth + 1)
        return ("?", v)

    def own_element(self, s, loc, depth):
        """The element at the index of the current iteration of a copy of a container of the node: not yet rewritten."""
        path = []
        while loc[0] == "fld":
            path.append(loc[2].lstrip("#"))
            loc = loc[1]
        if loc[0] != "elem" or loc[1][0] != "var":
            return None
        if loc[2][0] != "c" and (loc[2][0] != "loop" or loc[2][2][0] != "var"):
            return None
        if loc[2][0] == "loop" and not self.indexes(loc[2][1], loc[2][2][1]):
            return None
        c = s.store.get(loc[1])
        if c is None:
            return None
        x = self.nf(s, c, depth + 1)
        if x[0] != "o" or not x[1]:
            return None
        return ("o", x[1] + ("[]",) + tuple(reversed(path)))

    _loops = {}

    def indexes(self, loop, d):
        """Whether a local only counts the iterations of a loop."""
        key = (id(self.prog), loop, d)
        if key not in self._loops:
            n = self.loop_nodes().get(loop)
            r = False
            if n is not None and n["k"] in ("for", "while"):
                inc = n.get("inc") is not None and self.step_of(n["inc"]) == d
                other = any(self.step_of(x) == d or x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["L"].get("d") == d
                            or x["k"] == "un" and x["op"] in ("--", "&") and x["e"].get("d") == d for x in walk(n["body"]))
                r = inc and not other or not inc and d in self.counters(n)
            self._loops[key] = r
        return self._loops[key]

    _nodes = {}

    def loop_nodes(self):
        if id(self.prog) not in self._nodes:
            out = self._nodes[id(self.prog)] = {}
            for f in self.prog.functions:
                if f.file.startswith("slinky/builder") or f.file.startswith("slinky/runtime"):
                    for x in walk_fn(f):
                        if x["k"] in ("for", "while"):
                            out[x["id"]] = x
        return self._nodes[id(self.prog)]

    def nf_field(self, b, name):
        if b[0] in ("m", "o"):
            return (b[0], b[1] + (name,))
        if b[0] == "agg":
            for n, x in b[1]:
                if n == name:
                    return x
        if b[0] == "undef":
            return b
        return ("?", ("f", b, name))

    def nf_raw(self, s, loc, depth):
        """What was at loc when the analysed function started."""
        if loc[0] == "var":
            if loc[1] == self.opd:
                return ("op",)
            return ("?", loc)
        if loc[0] == "deref":
            b = loc[1]
            if b[0] == "init" and b[1][0] == "var" and b[1][1] == self.opd:
                return ("o", ())
            return self.nf(s, b, depth + 1) if b[0] in ("m", "agg", "nfv", "mk") else ("?", loc)
        if loc[0] == "fld":
            return self.nf_field(self.nf_raw(s, loc[1], depth + 1), loc[2].lstrip("#"))
        if loc[0] == "elem":
            b = self.nf_raw(s, loc[1], depth + 1)
            return (b[0], b[1] + ("[]",)) if b[0] in ("m", "o") else ("?", loc)
        return ("?", loc)

    def nf_loc(self, s, loc, depth=0):
        loc = self.resolve_loc(s, loc)
        w = s.store.get(loc)
        if w == ("init", loc):
            w = None
        if w is not None and w[0] == "refto":
            return self.nf_loc(s, w[1], depth + 1)
        subs = [k for k in s.store if k != loc and self.below(k, loc)]
        mods = s.store.get(("fld", loc, "#mods"), ("mods", None))
        mods = mods[1] if mods[0] == "mods" else frozenset([((), ("?", "mods"))])
        base = None
        if w is not None:
            base = self.nf(s, w, depth + 1)
        elif w is None and loc[0] == "fld":
            b = self.resolve_loc(s, loc[1])
            if b in s.store and s.store[b][0] != "refto":
                base = self.nf_field(self.nf_loc1(s, b, depth + 1), loc[2].lstrip("#"))
        elif w is None and loc[0] == "elem":
            b = self.resolve_loc(s, loc[1])
            bn = self.nf_loc1(s, b, depth + 1)
            if bn[0] in ("m", "o"):
                base = (bn[0], bn[1] + ("[]",))
            elif bn[0] == "vec" and len(bn[1]) == 1:
                base = next(iter(bn[1]))
            elif bn[0] == "modv" and loc[2][0] == "iter" and bn[1][0] in ("m", "o"):
                # The loop has only changed the elements before this one.
                base = (bn[1][0], bn[1][1] + ("[]",))
        if base is None:
            base = self.nf_raw(s, loc, depth + 1)
            if base[0] == "?" and loc[0] in ("fld", "elem"):
                b = self.nf_loc1(s, self.resolve_loc(s, loc[1]), depth + 1)
                if loc[0] == "fld":
                    base = self.nf_field(b, loc[2].lstrip("#"))
                elif b[0] in ("m", "o"):
                    base = (b[0], b[1] + ("[]",))
        if mods:
            if base[0] == "vec" and all(not p[1:] for p, _ in mods):
                return ("vec", base[1] | frozenset(x for _, x in mods))
            return ("modv", base, mods)
        fields = {k[2].lstrip("#"): k for k in subs if k[0] == "fld" and k[1] == loc and k[2] not in ("#mods",)}
        if fields and base[0] in ("m", "o", "agg", "?", "undef"):
            names = set(fields)
            if base[0] == "agg":
                names |= {n for n, _ in base[1]}
            elif base[0] in ("m", "o"):
                names |= self.fields_at(base[1])
            return ("agg", tuple(sorted((n, self.nf_loc(s, fields[n], depth + 1) if n in fields else self.nf_field(base, n)) for n in names)))
        return base

    def nf_loc1(self, s, loc, depth):
        return self.nf_loc(s, loc, depth)

    def fields_at(self, p):
        n = len(p)
        return {x.path[n] for x in self.nodes.slots(self.q) if x.path[:n] == p and len(x.path) > n and x.path[n] != "[]"} if self.q else set()

    def leaf(self, nf, path):
        """The normal forms a leaf below nf may have."""
        if not path:
            return [nf]
        if nf[0] in ("m", "o"):
            return [(nf[0], nf[1] + path)]
        if nf[0] == "agg":
            for n, x in nf[1]:
                if n == path[0]:
                    return self.leaf(x, path[1:])
            return [("?", nf)]
        if nf[0] == "vec":
            if path[0] == "[]":
                out = []
                for x in nf[1]:
                    out += self.leaf(x, path[1:])
                return out
            return [("?", nf)]
        if nf[0] == "modv":
            hit = []
            for p, x in nf[2]:
                if p == path[:len(p)]:
                    hit += self.leaf(x, path[len(p):])
            return hit or self.leaf(nf[1], path)
        if nf[0] == "undef":
            return [nf]
        return [("?", nf)]

    # -- slots of values ---------------------------------------------------------------------------------------------
    def slot(self, s, v):
        """The original slot (with indices) denoted by a location or value."""
        for _ in range(12):
            if v is None:
                return None
            if v[0] == "init":
                return self.slot_raw(v[1])
            if not self.is_loc(v):
                if v[0] == "fldv":
                    b = self.slot(s, v[1])
                    return None if b is None else b + (v[2].lstrip("#"),)
                return None
            v = self.resolve_loc(s, v)
            w = s.store.get(v)
            if w is None or w == ("init", v):
                if v[0] == "fld":
                    b = self.slot(s, v[1])
                    return None if b is None else b + (v[2].lstrip("#"),)
                if v[0] == "elem":
                    b = self.slot(s, v[1])
                    return None if b is None else b + (("[]", v[2]),)
                return self.slot_raw(v)
            v = w
        return None

    def slot_raw(self, loc):
        path = []
        while True:
            if loc[0] == "fld":
                path.append(loc[2].lstrip("#"))
                loc = loc[1]
            elif loc[0] == "elem":
                path.append(("[]", loc[2]))
                loc = loc[1]
            elif loc[0] == "deref":
                b = loc[1]
                if b[0] == "init" and b[1][0] == "var" and b[1][1] == self.opd:
                    return tuple(reversed(path))
                return None
            else:
                return None

    MAX_CALLS = 25000
    _plain = {}

    def inline_ok(self, f, n):
        # Questions about values that involve no rewriting and no comparison are left open.
        if f.rt == "bool" and f.recq is None:
            if self.prog not in self._plain:
                self._plain[self.prog] = reaching(self.prog, lambda c: c.get("fn", "").split("::")[-1].startswith(("mutate", "visit", "accept", "same_as", "enter_decl", "exit_decl", "defined", "set_result", "operator==", "operator!=")))
            if f.fid not in self._plain[self.prog]:
                return False
        return super().inline_ok(f, n)

    def do_call(self, n, s, frame, objn, argn, lv):
        if self.stat_calls > self.MAX_CALLS:
            raise TooBig()
        return super().do_call(n, s, frame, objn, argn, lv)

    # -- state keeping -------------------------------------------------------------------------------------------------
    def declare(self, v, s, frame):
        if v["t"] in ("bool", "const bool"):
            self.bools.add(v["d"])
        return super().declare(v, s, frame)

    def keep_in_loop(self, loc, s):
        v = s.store[loc]
        if v[0] in ("vec",) or (loc[0] == "fld" and loc[2] == "#mods"):
            return True
        if loc[0] == "var" and loc[1] in self.bools and v in (TRUE, FALSE):
            return True
        if (loc[0] == "var" and v[0] == "init" and self.slot_raw(v[1]) is not None):
            return True
        if v[0] == "nfv":
            return True
        return False

    def range_next(self, rf, s, frame, it):
        r = super().range_next(rf, s, frame, it)
        for x in r:
            for k in list(x.store):
                if k[0] in ("fld", "elem") and self.iter_in(k, rf["n"]["id"]) and not (k[0] == "fld" and k[2] == "#mods"):
                    del x.store[k]
            x.facts = {k: v for k, v in x.facts.items() if not (k[0] in ("def", "same") and self.iter_in(k, rf["n"]["id"]))}
        return r

    def keep_fact(self, k):
        return k[0] in ("def", "same")

    def term_written(self, term, written, frame):
        if isinstance(term, tuple) and term and term[0] in ("def", "same"):
            # Facts about elements of the current iteration.
            return self.has_loop(term)
        return super().term_written(term, written, frame)

    def has_loop(self, t):
        return isinstance(t, tuple) and ((len(t) > 0 and t[0] in ("loop", "iter")) or any(self.has_loop(x) for x in t if isinstance(x, tuple)))

    def loop_enter(self, s, n, frame, it):
        # What is known about "an element" of a container was about the element of the previous iteration.
        old = [k for k in s.facts if k[0] in ("same", "def") and isinstance(k[1], tuple) and "[]" in k[1]]
        if old:
            s = s.copy()
            for k in old:
                del s.facts[k]
        ex = list(s.chk.extra)
        if ex and ex[-1][0] == n["id"]:
            e0 = ex[-1][1]
            keep = frozenset(e for e in s.chk.ev if e in e0 or e[0] not in ("visit",))
            s = s.copy()
            s.chk = s.chk.rep(ev=keep)
            return s
        s = s.copy()
        s.chk = s.chk.rep(extra=s.chk.extra + ((n["id"], s.chk.ev),))
        return s

    _counters = {}
    _broke = False
    _counting = None

    def counters(self, n):
        """Local integers that a range loop increments exactly once in every complete iteration."""
        key = (self.prog, n["id"])
        if key in self._counters:
            return self._counters[key]
        cands, other = set(), set()
        for x in walk(n["body"]):
            d = self.step_of(x)
            if d is not None:
                cands.add(d)
            elif x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["L"]["k"] == "ref":
                other.add(x["L"].get("d"))
            elif x["k"] == "un" and x["op"] in ("++", "--", "&") and x["e"]["k"] == "ref":
                other.add(x["e"].get("d"))
        out = []
        for d in sorted(cands - other, key=str):
            done, cont = self.steps(n["body"], d)
            if done is not None and done | cont == {1}:
                out.append(d)
        self._counters[key] = out
        return self._counters[key]

    @staticmethod
    def step_of(x):
        """The local that an expression adds one to."""
        one = lambda y: one(y["e"]) if y["k"] in ("paren", "cast") and y.get("e") is not None else y.get("v") in (1, "1") or y.get("cv") in (1, "1")
        if x["k"] == "un" and x["op"] == "++" and x["e"]["k"] == "ref":
            return x["e"].get("d")
        if x["k"] == "bin" and x["op"] == "+=" and x["L"]["k"] == "ref" and one(x["R"]):
            return x["L"].get("d")
        if x["k"] == "bin" and x["op"] == "=" and x["L"]["k"] == "ref" and x["R"]["k"] == "bin" and x["R"]["op"] == "+" \
                and x["R"]["L"].get("d") == x["L"].get("d") and "d" in x["L"] and one(x["R"]["R"]):
            return x["L"]["d"]
        return None

    def steps(self, n, d):
        """How often d can be incremented when a statement completes, or continues its loop; (None, _) if not known."""
        has = lambda x: any(self.step_of(y) == d for y in walk(x))
        k = n["k"]
        if k == "block":
            done, cont = {0}, set()
            for c in n["c"]:
                a, b = self.steps(c, d)
                if a is None:
                    return None, set()
                cont |= {x + y for x in done for y in b}
                done = {x + y for x in done for y in a}
            return done, cont
        if k == "if":
            if has(n["c"]):
                return None, set()
            done, cont = set(), set()
            for c in (n["a"], n.get("b")):
                a, b = self.steps(c, d) if c is not None else ({0}, set())
                if a is None:
                    return None, set()
                done |= a
                cont |= b
            return done, cont
        if k in ("return", "break", "throw"):
            return set(), set()
        if k == "continue":
            return set(), {0}
        if self.step_of(n) == d:
            return {1}, set()
        if has(n):
            return None, set()
        return {0}, set()

    def count(self, s, n, it):
        if self._counting is None:
            self._counting = {}
        v = self.ranges.get(n["id"])
        if v is None or not self.is_loc(v):
            return s
        v = self.resolve_loc(s, v)
        for d in self.counters(n):
            for loc in [k for k in s.store if k[0] == "var" and k[1] == d]:
                key = (n["id"], loc)
                if it == 0:
                    self._counting[key] = s.store[loc] == C(0)
                if self._counting.get(key):
                    w = s.store.get(v)
                    s = s.copy()
                    s.store[loc] = ("size", v if w is None else w)
        return s

    def count_indexed(self, s, n, frame, it):
        """The same for a loop over the indices of a container: from 0, while below its size."""
        c = n.get("c")
        if c is None or c["k"] != "bin" or c["op"] not in ("<", "!=", ">"):
            return s
        i, e = (c["L"], c["R"]) if c["op"] != ">" else (c["R"], c["L"])
        while i["k"] in ("paren", "cast"):
            i = i["e"]
        if i["k"] != "ref" or i.get("d") is None:
            return s
        i = i["d"]
        ups = list(self.counters(n))
        if n.get("inc") is not None and self.step_of(n["inc"]) == i and not any(
                x["k"] in ("un", "bin") and (self.step_of(x) == i or x.get("op") in ("=", "+=", "-=", "--", "&") and (x.get("L") or x.get("e") or {}).get("d") == i)
                for x in walk(n["body"])):
            pass
        elif i in ups:
            ups.remove(i)
        else:
            return s
        if self._counting is None:
            self._counting = {}
        if it == 0:
            zero = any(k[0] == "var" and k[1] == i and v == C(0) for k, v in s.store.items())
            for d in ups:
                for k, v in s.store.items():
                    if k[0] == "var" and k[1] == d:
                        self._counting[(n["id"], k)] = zero and v == C(0)
        vs = self.eval(e, s.copy(), frame)
        if len(vs) != 1 or vs[0][1][0] != "size":
            return s
        for d in ups:
            for loc in [k for k in s.store if k[0] == "var" and k[1] == d]:
                if self._counting.get((n["id"], loc)):
                    s = s.copy()
                    s.store[loc] = vs[0][1]
        return s

    def loop_exit(self, s, n, frame, it):
        broke, self._broke = self._broke, False
        s = super().loop_exit(s, n, frame, it)
        if s is None:
            return None
        if n["k"] == "rfor" and not broke:
            s = self.count(s, n, it)
        elif n["k"] in ("for", "while") and not broke and self.counters(n):
            s = self.count_indexed(s, n, frame, it)
        if s.chk.extra and s.chk.extra[-1][0] == n["id"]:
            s = s.copy()
            s.chk = s.chk.rep(extra=s.chk.extra[:-1])
        for k, v in s.facts.items():
            # An index loop that stops before the end of the container.
            if v is False and k[0] == "<" and k[2][0] == "size" and k[1][0] == "bin" and k[1][1] == "+" and k[1][3][0] == "c" and k[1][3][1] > 0:
                p = self.slot(s, k[2][1])
                if p is not None:
                    s = s.copy()
                    s.chk = s.chk.add(("short", self.plain(p)))
            if v is False and k[0] == "<" and k[2][0] == "size" and k[1] == ("c", 0):
                p = self.slot(s, k[2][1])
                if p is not None:
                    s = s.copy()
                    s.chk = s.chk.add(("empty", self.plain(p)))
        return s

    def hook_broke(self, s, n, frame, range_for):
        """A break leaves the rest of the elements unvisited."""
        self._broke = True
        ps = []
        if range_for is not None:
            ps.append(self.slot(s, range_for["rng"]))
        else:
            ps += [self.slot(s, k[2][1]) for k, v in s.facts.items() if v is True and k[0] == "<" and k[2][0] == "size"]
            c = n.get("c")
            if c is not None and c["k"] == "bin" and c["op"] in ("<", "!=", ">"):
                for e in (c["L"], c["R"]):
                    if e["k"] == "call" and e.get("fn", "").split("::")[-1] == "size":
                        for _, v in self.eval(e, s.copy(), frame):
                            if v[0] == "size":
                                ps.append(self.slot(s, v[1]))
        for p in ps:
            if p is not None:
                s = s.copy()
                s.chk = s.chk.add(("short", self.plain(p)))
        return s

    def hook_write(self, s, loc, val, n, frame):
        x, rel = loc, []
        while x[0] in ("fld", "elem"):
            rel.append("[]" if x[0] == "elem" else x[2].lstrip("#"))
            x = x[1]
        if x[0] == "var" and "[]" in rel:
            rel.reverse()
            if rel[0] == "[]":
                k = ("fld", x, "#mods")
                old = s.store.get(k, ("mods", frozenset()))
                old = old[1] if old[0] == "mods" else frozenset([(("[]",), ("?", "mods"))])
                s = s.copy()
                s.store[k] = ("mods", old | frozenset([(tuple(rel), self.nf(s, val))]))
                return s
        return None

    # -- operations ------------------------------------------------------------------------------------------------------
    def client_call(self, s, n, f, obj, args, frame):
        r = self.special(s, n, f, obj, args, frame)
        if r is not None:
            return r
        fn = n.get("fn", "")
        name = fn.split("::")[-1]
        rec = strip(n["rec"]) if isinstance(n.get("rec"), str) else None
        pts = n.get("pt", [])
        rt = strip(n.get("t", ""))
        if name == "accept" and obj is not None:
            p = self.slot(s, obj)
            if p is not None and p:
                return [(self.visited(s, p), ("void",))]
            return [(s, ("void",))]
        if name.startswith("mutate") and args and rt in BUILT and pts and strip(pts[0]) == rt and (f is None or n.get("virt") or not self.small_wrapper(f)):
            return [self.rewritten(s, n, args[0])]
        if n.get("virt") and len(args) == 1 and rt == "slinky::var" and strip(pts[0]) == "slinky::var":
            return [self.rewritten(s, n, args[0])]
        if name == "set_result" and args:
            if n.get("sm") is None and pts and pts[0].rstrip().endswith("*") or strip(pts[0]) in WRAP:
                nf = self.nf(s, args[0])
                s = s.copy()
                had = [e for e in s.chk.ev if e[0] == "res"]
                if had:
                    s.chk = s.chk.add(("res2",))
                    self.report(n, "res2")
                s.chk = s.chk.add(("res", nf))
                return [(s, ("void",))]
        if name == "same_as" and obj is not None and len(args) == 1:
            oq = strip(rec or "")
            if oq in ("slinky::expr", "slinky::stmt"):
                return self.same(s, n, obj, args[0])
        if fn in ("slinky::var::operator==", "slinky::var::operator!=") and obj is not None:
            return self.same(s, n, obj, args[0], neg=fn.endswith("!="))
        if name == "get" and rec in WRAP and obj is not None and not args:
            return [(s, self.val(s, obj))]
        if n.get("op") == "=" and obj is not None and len(args) == 1 and self.is_loc(obj):
            loc = self.resolve_loc(s, obj)
            v = self.aval(s, args[0])
            return [(self.write(s, loc, v, n, frame), loc)]
        if self.is_vec(rec) and obj is not None and self.is_loc(obj):
            r = self.vec_op(s, n, name, self.resolve_loc(s, obj), args)
            if r is not None:
                return r
        q = strip(rec or "")
        if q in self.nodes.classes and name.startswith("make") and n.get("sm"):
            m = self.make_map(n.get("fid"))
            if m is not None:
                fields = []
                for fl, i in m.items():
                    fields.append((fl, self.nf(s, args[i]) if i is not None and i < len(args) else ("?", "default")))
                return [(self.built(s, n, q, tuple(sorted(fields)), frame), ("mk", q, tuple(sorted(fields))))]
        return None

    def built(self, s, n, q, fields, frame):
        return s

    def special(self, s, n, f, obj, args, frame):
        return None

    def small_wrapper(self, f):
        return False

    def aval(self, s, v):
        """A value to store, keeping what is known about the parts of v."""
        x = self.nf(s, v)
        if x[0] in ("agg", "vec", "modv", "mk", "m", "undef"):
            return ("nfv", x) if x[0] not in ("vec", "mk") else x
        r = self.read_loc(s, v) if self.is_loc(v) else v
        if x[0] == "o" and x[1] and self.slot(s, r) is None:
            # An element of a copy of a container of the node.
            return ("nfv", x)
        return r

    def field_of(self, v, name, s):
        if v[0] == "nfv":
            x = self.nf_field(v[1], name.lstrip("#"))
            if x[0] == "o":
                pass
            return ("nfv", x)
        return super().field_of(v, name, s)

    def visited(self, s, p):
        s = s.copy()
        s.chk = s.chk.add(("visit", self.plain(p)))
        for x in p:
            if isinstance(x, tuple) and x[1][0] == "c":
                s.chk = s.chk.add(("at", self.plain(p), x[1][1]))
            elif isinstance(x, tuple):
                s.chk = s.chk.add(("at", self.plain(p), "*" if x[1][0] == "iter" else "i"))
        return s

    def rewritten(self, s, n, a):
        p = self.slot(s, a)
        if p is not None and p:
            s = self.visited(s, p)
            s.chk = s.chk.add(("mut", self.plain(p)))
            return (s, ("m", p))
        x = self.nf(s, a)
        if x[0] in ("o", "m") and x[1]:
            s = s.copy()
            s.chk = s.chk.add(("visit", x[1]), ("mut", x[1]))
            return (s, ("nfv", ("m", x[1])))
        if x[0] == "undef":
            return (s, ("undefined",))
        if x[0] == "mk":
            return (s, ("nfv", ("mkm", x)))
        s = s.copy()
        t = ("ret", n["id"])
        self.kill_facts(s, t)
        return (s, t)

    def same(self, s, n, a, b, neg=False):
        x, y = self.nf(s, a), self.nf(s, b)
        T, F = (FALSE, TRUE) if neg else (TRUE, FALSE)
        if x == y and x[0] in ("o", "m", "op", "undef"):
            return [(s, T)]
        if x[0] == "o":
            x, y = y, x
        if x[0] == "m" and y[0] == "o" and x[1] == y[1]:
            pa = self.slot_of_m(s, a) or self.slot_of_m(s, b) or x[1]
            key = ("same", pa)
            if key in s.facts:
                return [(s, T if s.facts[key] else F)]
            if s.facts.get(("def", pa)) is False:
                t = s.copy()
                t.chk = t.chk.add(("same", x[1]))
                return [(t, T)]
            t, u = s.copy(), s.copy()
            t.facts[key] = True
            u.facts[key] = False
            t.chk = t.chk.add(("same", x[1]))
            u.chk = u.chk.add(("diff", x[1]))
            return [(t, T), (u, F)]
        if {x[0], y[0]} == {"o", "undef"} or {x[0], y[0]} == {"m", "undef"}:
            pass
        t = ("samev", n["id"])
        s = s.copy()
        for z in (x, y):
            if z[0] == "o" and z[1]:
                s.chk = s.chk.add(("asked", z[1]))
        self.kill_facts(s, t)
        u = s.copy()
        s.facts[t] = True
        u.facts[t] = False
        return [(s, T), (u, F)]

    def slot_of_m(self, s, v):
        if self.is_loc(v):
            v = self.read_loc(s, v)
        if v[0] == "m":
            return v[1]
        return None

    def vec_op(self, s, n, name, loc, args):
        w = s.store.get(loc)
        if name in ("push_back", "emplace_back"):
            if len(args) == 1:
                v = args[0]
                x = self.nf(s, v)
            else:
                et = targ(strip(n["rec"]), 0) or ""
                names = ("first", "second") if et.startswith("std::pair<") else [g["n"] for _, g in self.prog.all_fields(strip(et))]
                x = ("agg", tuple((nm, self.nf(s, a)) for nm, a in zip(names, args)))
            s = s.copy()
            base = self.nf_loc(s, loc)
            el = base[1] if base[0] == "vec" else frozenset([("?", "elems")]) if base[0] != "undef" else frozenset()
            if base[0] == "modv":
                s.store.pop(("fld", loc, "#mods"), None)
            self.pushed(s, n, loc, x)
            keep = {k: v for k, v in s.store.items() if k[0] == "fld" and k[1] == loc and k[2].startswith("#")}
            self.kill(s, loc)
            s.store.update(keep)
            s.store[loc] = ("vec", el | frozenset([x]))
            s.store[("elem", loc, ("last", loc))] = ("nfv", x)
            return [(s, ("elem", loc, ("last", loc)))]
        if name == "reserve":
            return [(s, ("void",))]
        if name == "back":
            return [(s, ("elem", loc, ("last", loc)))]
        if name in ("pop_back", "erase", "insert", "clear", "resize", "assign", "swap"):
            p = self.slot(s, loc)
            if p is None:
                s = s.copy()
                old = self.nf_loc(s, loc)
                self.kill(s, loc)
                if name == "clear":
                    s.store[loc] = ("vec", frozenset())
                elif name in ("pop_back", "erase", "resize") and old[0] == "vec":
                    s.store[loc] = old
                elif name in ("pop_back", "erase", "resize") and old[0] in ("o", "m"):
                    s.store[loc] = ("nfv", old)
                else:
                    s.store[loc] = ("nfv", ("?", (name, n["id"])))
            return [(s, ("ret", n["id"]))]
        return None

    def pushed(self, s, n, loc, x):
        pass

    def hook_construct(self, s, n, args, frame):
        q = strip(n.get("rec") or "")
        pts = n.get("pt", [])
        if q in WRAP:
            if n.get("dflt") or not args:
                return [(s, ("undefined",))]
            if n.get("copy") or n.get("move"):
                return [(s, self.aval(s, args[0]) if args else ("undefined",))]
            t = strip(pts[0]) if pts else ""
            if t in WRAP or pts[0].rstrip().endswith("*"):
                v = self.val(s, args[0])
                if v == ("null",):
                    return [(s, ("undefined",))]
                if self.is_loc(args[0]):
                    return [(s, self.aval(s, args[0]))]
                return [(s, v)]
            return [(s, ("econst", n["id"]))]
        if q.startswith("std::vector<"):
            if n.get("copy") or n.get("move"):
                return [(s, self.aval(s, args[0]))]
            if not args:
                return [(s, ("vec", frozenset()))]
            if pts and "initializer_list" not in pts[0] and (len(args) == 1 or len(args) == 2 and "allocator" in pts[1]):
                return [(s, ("vec", frozenset()))]
            return None
        if (n.get("copy") or n.get("move")) and args and self.is_loc(args[0]):
            return [(s, self.aval(s, args[0]))]
        if q.startswith("std::pair<") and len(args) == 2:
            return [(s, ("agg", (("first", self.aval(s, args[0])), ("second", self.aval(s, args[1])))))]
        return None

    # -- what the constructors of nodes store ----------------------------------------------------------------------------
    def make_map(self, fid):
        if self.makes is None:
            self.makes = {}
        if fid not in self.makes:
            self.makes[fid] = None
            f = self.prog.callee(fid)
            if f is not None and f.body is not None and not f.dep:
                m = MakeInterp(self.prog, self.nodes).fields(f)
                self.makes[fid] = m
        return self.makes[fid]


class ResultInterp(ShapeInterp):
    """Only counts the results a visit function delivers: other effects are ignored, and only helpers that can deliver a
    result are followed."""

    def __init__(self, prog, nodes, relevant):
        super().__init__(prog, nodes)
        self.relevant = relevant

    def inline_ok(self, f, n):
        return f.fid in self.relevant

    def visited(self, s, p):
        return s

    def same(self, s, n, a, b, neg=False):
        s = s.copy()
        return [(s, ("ret", n["id"]))]

    def defined(self, s, n, obj, frame):
        return [(s, ("ret", n["id"]))]

    def rewritten(self, s, n, a):
        had = [e for e in s.chk.ev if e[0] == "res"]
        if had:
            kind = strip(n.get("t", ""))
            if any(e[2] == kind or e[2] is None for e in had):
                self.report(n, "mutate-after-result")
        s = s.copy()
        return (s, ("ret", n["id"]))

    def loop_enter(self, s, n, frame, it):
        return s

    def loop_exit(self, s, n, frame, it):
        return s

    def x_break(self, n, sts, frame):
        return NodeInterp.x_break(self, n, sts, frame)

    def hook_write(self, s, loc, val, n, frame):
        return None

    def client_call(self, s, n, f, obj, args, frame):
        name = n.get("fn", "").split("::")[-1]
        if name == "set_result" and args and f is not None and f.fid not in self.relevant:
            pts = n.get("pt", [])
            t = strip(pts[0])
            kind = "slinky::expr" if "expr" in t else "slinky::stmt"
            s = s.copy()
            if any(e[0] == "res" and e[2] == kind for e in s.chk.ev):
                self.report(n, "second result")
                s.chk = s.chk.add(("res2",))
            s.chk = s.chk.add(("res", "x", kind))
            return [(s, ("void",))]
        if name == "accept" and obj is not None:
            return [(s, ("void",))]
        if name.startswith("mutate") and args and strip(n.get("t", "")) in BUILT and f is not None and f.fid not in self.relevant:
            return [self.rewritten(s, n, args[0])]
        return None


def reaching(prog, target):
    """fids of functions that can reach a call accepted by target, through direct calls and lambdas in their bodies."""
    calls, hit = {}, set()
    for f in prog.functions:
        if f.dep or not f.body:
            continue
        cs = set()
        for n in walk(f.body):
            if n["k"] == "call" and n.get("fid"):
                if target(n):
                    hit.add(f.fid)
                elif not (n.get("virt") and not n.get("qual")):
                    cs.add(n["fid"])
            elif n["k"] == "ctor" and n.get("fid"):
                cs.add(n["fid"])
        calls[f.fid] = cs
    work = True
    while work:
        work = False
        for k, cs in calls.items():
            if k not in hit and cs & hit:
                hit.add(k)
                work = True
    return hit


class MakeInterp(NodeInterp):
    """Which parameter of a node constructor function ends up in which field."""

    def do_new(self, s, n, place, init, frame):
        s = s.copy()
        loc = ("newobj", n["id"])
        s.chk = Chk(s.chk.ev, (n["at"], loc))
        return [(s, ("addr", loc))]

    def is_loc(self, v):
        return v[0] == "newobj" or super().is_loc(v)

    def client_call(self, s, n, f, obj, args, frame):
        if n.get("op") == "=" and obj is not None and len(args) == 1 and self.is_loc(obj):
            loc = self.resolve_loc(s, obj)
            v = self.read_loc(s, args[0]) if self.is_loc(args[0]) else args[0]
            return [(self.write(s, loc, v, n, frame), loc)]
        fn = n.get("fn", "")
        if fn == "std::swap" and len(args) == 2:
            a, b = (self.resolve_loc(s, x) for x in args)
            va, vb = self.read_loc(s, a), self.read_loc(s, b)
            s = self.write(s, a, vb, n, frame)
            s = self.write(s, b, va, n, frame)
            return [(s, ("void",))]
        return None

    def hook_construct(self, s, n, args, frame):
        q = strip(n.get("rec") or "")
        if (n.get("copy") or n.get("move")) and args:
            return [(s, self.read_loc(s, args[0]) if self.is_loc(args[0]) else args[0])]
        if q in WRAP and args:
            return [(s, self.read_loc(s, args[0]) if self.is_loc(args[0]) else args[0])]
        return None

    def paths(self, f):
        """[(class, {field: param index or value})] for every path that builds a node directly."""
        idx = {p["d"]: i for i, p in enumerate(f.params)}
        out = []
        for s, v in self.start(f):
            if not s.chk.extra:
                continue
            q, loc = s.chk.extra
            m = {}
            for k, x in s.store.items():
                if k[0] == "fld" and k[1] == loc:
                    if x[0] == "init" and x[1][0] == "var" and x[1][1] in idx:
                        m[k[2]] = idx[x[1][1]]
                    else:
                        m[k[2]] = x
            out.append((strip(q), m, s))
        return out

    def order(self, q):
        return [x["n"] for _, x in self.prog.all_fields(q)]

    def fields(self, f):
        ps = self.paths(f)
        if not ps or any(q != f.recq for q, _, _ in ps):
            return None
        m = {}
        for q, x, s in ps[:1]:
            for k, i in x.items():
                m[k] = i if isinstance(i, int) else None
        # The order of operands a constructor may canonicalise does not matter here.
        names = [p["n"] for p in f.params]
        vals = set(map(str, m.values()))
        for q, x, s in ps[1:]:
            if x != m and set(map(str, x.values())) == vals:
                ks = [k for k, i in m.items() if isinstance(i, int)]
                order = [k for k in self.order(f.recq) if k in ks]
                if all(k in names for k in ks):
                    m = {k: names.index(k) if k in names else i for k, i in m.items()}
                elif len(order) == len(ks):
                    m = dict(m, **dict(zip(order, sorted(m[k] for k in ks))))
        return m
