"""A disjunctive (property-simulation style) dataflow engine over the structured, type-checked program.

Abstract values are hash-consed terms over access paths; an abstract state holds a store (location -> term), branch facts
that hold on the path class, and a checker-defined component `chk`. Functions of the repository are inlined at call
sites up to a bound, so extracting or inlining a helper does not change what a client analysis sees. Loops run to a
fixpoint over havocked loop-carried locations. At joins, states with equal checker components are merged.
"""
from .program import walk, show, AnalysisBroken


class Outcome:
    __slots__ = ("normal", "brk", "cont", "ret")

    def __init__(self, normal=None, brk=None, cont=None, ret=None):
        self.normal = normal or []
        self.brk = brk or []
        self.cont = cont or []
        self.ret = ret or []


class State:
    __slots__ = ("store", "facts", "chk", "trace")

    def __init__(self, store=None, facts=None, chk=None, trace=()):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.chk = chk
        self.trace = trace

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.chk, self.trace)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.chk)


def mentions(term, t):
    if term == t:
        return True
    if isinstance(term, tuple):
        return any(mentions(x, t) for x in term if isinstance(x, tuple))
    return False


C = lambda v: ("c", v)
TRUE, FALSE = C(1), C(0)


class Interp:
    MAX_STATES = 24
    MAX_DEPTH = 8
    INLINE_NODES = 400

    def __init__(self, prog):
        self.prog = prog
        self._size = {}
        self.frames = []          # call stack of (func, frame id)
        self.reports = []
        self.lambdas = {}         # lambda id -> (node, func)
        self.cur = None
        self.stat_calls = 0
        self.stat_paths = 0

    # ---- client hooks ---------------------------------------------------------------------------------------------
    def hook_call(self, st, n, fn, obj, args, frame):
        """Return a list of (state, value) to model a call, or None for the default treatment."""
        return None

    def hook_destroy(self, s, var, frame):
        """A local variable's destructor; returns list of states or None. Destructors of the project's classes are followed."""
        t = var.get("t", "").replace("const ", "").strip()
        r = self.prog.records.get(t)
        if r is None or "std::" in t or var["t"].rstrip().endswith(("&", "*")):
            return None
        loc = ("var", var["d"], frame)
        for f in self.prog.functions:
            if f.kind == "dtor" and f.recq == t and f.body and not f.dep and len(self.frames) < self.MAX_DEPTH:
                n = {"id": -var["d"], "l": f.line, "k": "call", "fid": f.fid}
                return [x for x, _ in self.inline(s, n, f, loc, (), frame)]
        return None

    def hook_construct(self, st, n, args, frame):
        return None

    def hook_read(self, st, loc, n, frame):
        pass

    def hook_write(self, st, loc, val, n, frame):
        """May return a replacement state."""
        return None

    def inline_ok(self, f, n):
        return True

    def pure(self, f_or_name, n):
        return False

    def hook_branch(self, st, n, taken, frame):
        return st

    # ---- entry ------------------------------------------------------------------------------------------------
    def run(self, f, st=None, this=None, args=None):
        """Analyses function f from the given state; returns [(state, return value)]."""
        st = st or State()
        frame = ("root",)
        for i, p in enumerate(f.params):
            if args and i < len(args) and args[i] is not None:
                st.store[("var", p["d"], frame)] = args[i]
        for p in f.params:
            st.store.setdefault(("var", p["d"], frame), ("init", ("var", p["d"], frame)))
        self.frames.append((f, frame, this if this is not None else ("this", f.recq or "")))
        outs = []
        sts = [st]
        for ini in f.inits:
            nxt = []
            for s in sts:
                nxt += self.ctor_init(s, ini, frame)
            sts = nxt
        o = self.exec_list(f.body, sts, frame)
        for s in o.normal:
            outs.append((s, ("void",)))
        outs += [(s, v) for s, v in o.ret]
        self.frames.pop()
        self.stat_paths += len(outs)
        return outs

    def ctor_init(self, s, ini, frame):
        if not ini.get("e"):
            return [s]
        res = []
        for s2, v in self.eval(ini["e"], s, frame):
            if ini.get("f"):
                loc = ("fld", self.this_loc(), ini["f"])
                s2 = self.write(s2, loc, v, ini["e"], frame, init=True)
            res.append(s2)
        return res

    def this_loc(self):
        t = self.frames[-1][2]
        return t

    # ---- joins -----------------------------------------------------------------------------------------------
    def group_key(self, s):
        """States that differ in this are never joined."""
        return None

    def merge(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.MAX_STATES:
            groups = {}
            for s in out:
                groups.setdefault((s.chk, self.group_key(s)), []).append(s)
            out = []
            for chk, g in groups.items():
                out.append(self.join(g))
        return out

    def merge_ret(self, rs):
        seen, out = set(), []
        for s, v in rs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.MAX_STATES:
            groups = {}
            for s, v in out:
                groups.setdefault(((s.chk, self.group_key(s)), v), []).append(s)
            out = [(self.join(g), v) for (c, v), g in groups.items()]
        return out

    def join(self, g):
        if len(g) == 1:
            return g[0]
        store = {}
        keys = set()
        for s in g:
            keys |= set(s.store)
        for k in keys:
            vals = {s.store.get(k, ("init", k)) for s in g}
            store[k] = vals.pop() if len(vals) == 1 else ("phi", k)
        facts = dict(g[0].facts)
        for s in g[1:]:
            facts = {k: v for k, v in facts.items() if s.facts.get(k) == v}
        return State(store, facts, g[0].chk, g[0].trace)

    # ---- statements -------------------------------------------------------------------------------------------
    def exec_list(self, node, sts, frame):
        return self.exec(node, self.merge(sts), frame)

    def exec(self, n, sts, frame):
        if n is None or not sts:
            return Outcome(normal=list(sts))
        m = getattr(self, "x_" + n["k"], None)
        if m:
            return m(n, sts, frame)
        out = []
        for s in sts:
            out += [s2 for s2, _ in self.eval(n, s, frame)]
        return Outcome(normal=self.merge(out))

    def x_nop(self, n, sts, frame):
        return Outcome(normal=list(sts))

    def declared(self, n):
        vs = []
        for c in n:
            if c and c["k"] == "decl":
                vs += c["v"]
        return vs

    def destroy(self, sts, vs, frame):
        for v in reversed(vs):
            nxt = []
            for s in sts:
                r = self.hook_destroy(s, v, frame)
                nxt += [s] if r is None else r
            sts = nxt
        if vs and sts:
            sts = self.merge([self.forget(s, vs, frame) for s in sts])
        return sts

    def forget(self, s, vs, frame):
        """Drops dead locals, then facts about values nothing refers to any more."""
        dead = {("var", v["d"], frame) for v in vs}
        for v in vs:
            for b in v.get("binds", []):
                dead.add(("var", b["d"], frame))
        s = s.copy()
        for k in list(s.store):
            b = k
            while b[0] in ("fld", "elem"):
                b = b[1]
            if b in dead:
                del s.store[k]
        return self.gc(s)

    FRESH = ("ret", "out", "mut", "loop", "phi", "stale", "left", "findstk", "cntstk", "new", "op")

    def fresh_atoms(self, t, acc):
        if isinstance(t, tuple) and t:
            if t[0] in self.FRESH:
                acc.add(t)
            for x in t:
                if isinstance(x, tuple):
                    self.fresh_atoms(x, acc)
        return acc

    def gc(self, s, extra=None):
        live = set()
        for v in s.store.values():
            self.fresh_atoms(v, live)
        if extra is not None:
            self.fresh_atoms(extra, live)
        facts = {}
        for k, v in s.facts.items():
            fa = self.fresh_atoms(k, set())
            if not fa or fa & live or self.keep_fact(k):
                facts[k] = v
        s.facts = facts
        return s

    def keep_fact(self, k):
        return False

    def x_block(self, n, sts, frame):
        out = Outcome()
        cur = list(sts)
        declared = []
        for c in n["c"]:
            if not cur:
                break
            o = self.exec(c, cur, frame)
            out.brk += self.destroy(o.brk, declared, frame)
            out.cont += self.destroy(o.cont, declared, frame)
            out.ret += self.destroy_ret(o.ret, declared, frame)
            cur = self.merge(o.normal)
            if c and c["k"] == "decl":
                declared += [v for v in c["v"]]
        out.normal = self.destroy(cur, declared, frame)
        return out

    def destroy_ret(self, rs, vs, frame):
        for v in reversed(vs):
            nxt = []
            for s, val in rs:
                r = self.hook_destroy(s, v, frame)
                nxt += [(s, val)] if r is None else [(x, val) for x in r]
            rs = nxt
        if vs and rs:
            nxt = []
            for s, val in rs:
                if not self.is_loc(val):
                    s = self.forget(s, vs, frame)
                nxt.append((s, val))
            rs = self.merge_ret(nxt)
        return rs

    def x_decl(self, n, sts, frame):
        for v in n["v"]:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s, frame)
            sts = self.merge(nxt)
        return Outcome(normal=sts)

    def declare(self, v, s, frame):
        loc = ("var", v["d"], frame)
        if v.get("init") is None:
            s = s.copy()
            self.kill(s, loc)
            s.store[loc] = ("uninit", v["d"])
            return [s]
        out = []
        for s2, val in self.eval(v["init"], s, frame, lv=v["t"].rstrip().endswith("&"), dst=loc):
            if v["t"].rstrip().endswith("&"):
                # A reference: bind to the location.
                s2 = s2.copy()
                s2.store[loc] = ("refto", val) if self.is_loc(val) else val
            else:
                s2 = self.write(s2, loc, val, v["init"], frame, init=True)
            for b in v.get("binds", []):
                bl = ("var", b["d"], frame)
                s2 = s2.copy()
                base = loc
                if s2.store.get(loc, (0,))[0] == "refto":
                    base = s2.store[loc][1]
                s2.store[bl] = ("refto", ("fld", base, "#" + b["n"]))
            out.append(s2)
        return out

    def x_return(self, n, sts, frame):
        rs = []
        f = self.frames[-1][0]
        rt = getattr(f, "rt", None) or ""
        lv = rt.rstrip().endswith("&")
        for s in sts:
            if n.get("e") is None:
                rs.append((s, ("void",)))
            else:
                rs += self.eval(n["e"], s, frame, lv=lv)
        return Outcome(ret=self.merge_ret(rs))

    def x_if(self, n, sts, frame):
        out = Outcome()
        decl = []
        if n.get("init"):
            o = self.exec(n["init"], sts, frame)
            sts = o.normal
            if n["init"]["k"] == "decl":
                decl += n["init"]["v"]
        if n.get("var"):
            nxt = []
            for s in sts:
                nxt += self.declare(n["var"], s, frame)
            sts = nxt
            decl.append(n["var"])
        ts, fs = [], []
        for s in sts:
            t, f = self.cond(n["c"], s, frame)
            ts += [self.hook_branch(x, n, True, frame) for x in t]
            fs += [self.hook_branch(x, n, False, frame) for x in f]
        for br, ss in ((n["a"], ts), (n["b"], fs)):
            if not ss:
                continue
            o = self.exec(br, self.merge(ss), frame) if br else Outcome(normal=ss)
            out.normal += o.normal
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
        if decl:
            out.normal = self.destroy(out.normal, decl, frame)
            out.brk = self.destroy(out.brk, decl, frame)
            out.cont = self.destroy(out.cont, decl, frame)
            out.ret = self.destroy_ret(out.ret, decl, frame)
        out.normal = self.merge(out.normal)
        return out

    # Loops: iterate, havocking what the loop writes after the first iteration, until no new states appear.
    def loop(self, n, sts, frame, cond, body, inc, decl_var=None, post=False, range_for=None):
        out = Outcome()
        written = self.written(n)
        exits = []
        entry = list(sts)
        # First iteration runs with exact values; later ones with havocked loop-carried locations.
        seen = set()
        cur = entry
        for it in range(6):
            new = []
            for s in cur:
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    new.append(s)
            if not new:
                break
            ts = []
            if post and it == 0:
                ts = new
            elif range_for is not None:
                for s in new:
                    s1 = s.copy()
                    exits.append(self.loop_exit(s1, n, frame, it))
                    ts += self.range_next(range_for, s, frame, it)
            else:
                for s in new:
                    if cond is None:
                        t, f = [s], []
                        if decl_var:
                            pass
                    else:
                        if decl_var:
                            t, f = [], []
                            for s2 in self.declare(decl_var, s, frame):
                                a, b = self.cond(cond, s2, frame)
                                t += a
                                f += self.destroy(b, [decl_var], frame)
                        else:
                            t, f = self.cond(cond, s, frame)
                    ts += [self.hook_branch(x, n, True, frame) for x in t]
                    exits += [self.loop_exit(self.hook_branch(x, n, False, frame), n, frame, it) for x in f]
            ts = [x for x in (self.loop_enter(s, n, frame, it) for s in ts) if x is not None]
            o = self.exec(body, self.merge(ts), frame)
            nb = o.brk
            nn = o.normal + o.cont
            dv = [decl_var] if decl_var else ([range_for["var"]] if range_for is not None else [])
            if dv:
                nb = self.destroy(nb, dv, frame)
                nn = self.destroy(nn, dv, frame)
                o.ret = self.destroy_ret(o.ret, dv, frame)
            exits += [self.loop_exit(self.hook_broke(s, n, frame, range_for), n, frame, it + 1) for s in nb]
            out.ret += o.ret
            if post:
                t2 = []
                for s in nn:
                    t, f = self.cond(cond, s, frame)
                    t2 += t
                    exits += f
                nn = t2
            if inc:
                o2 = []
                for s in self.merge(nn):
                    o2 += [x for x, _ in self.eval(inc, s, frame)]
                nn = o2
            # Widen.
            cur = []
            for s in self.merge(nn):
                s = s.copy()
                for loc in list(s.store):
                    if self.loc_written(loc, written, frame):
                        base = s.store[loc]
                        if base[0] != "refto" and not self.keep_in_loop(loc, s):
                            self.kill_facts(s, ("loop", n["id"], loc))
                            s.store[loc] = ("loop", n["id"], loc)
                s.facts = {k: v for k, v in s.facts.items() if not self.term_written(k, written, frame)}
                s.chk = self.widen_chk(s.chk)
                cur.append(s)
            cur = self.merge(cur)
        else:
            pass
        out.normal = self.merge([s for s in exits if s is not None])
        out.ret = self.merge_ret(out.ret)
        return out

    def widen_chk(self, chk):
        return chk

    def keep_in_loop(self, loc, s):
        return False

    def loop_enter(self, s, n, frame, it):
        return s

    def hook_broke(self, s, n, frame, range_for):
        return s

    def loop_exit(self, s, n, frame, it):
        return s

    def written(self, n):
        """Declaration ids and field names a loop may write (directly)."""
        ds, fl = set(), set()
        for x in walk(n):
            t = None
            if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["L"]
            elif x["k"] == "un" and x["op"] in ("++", "--"):
                t = x["e"]
            elif x["k"] == "un" and x["op"] == "&":
                t = x["e"]
            elif x["k"] == "call" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["args"][0]
            elif x["k"] == "call" and x.get("op") in ("++", "--"):
                t = x["args"][0]
            elif x["k"] == "call":
                if x.get("obj") and not x.get("cm"):
                    if x.get("arrow") and x["obj"].get("t", "").rstrip().endswith(("*", "*const")):
                        fl.add("[]")
                    else:
                        self._wr(x["obj"], ds, fl)
                for a, p in zip(x["args"], x.get("pt", [])):
                    if p.endswith("&") and not p.startswith("const ") and not p.endswith("&&"):
                        self._wr(a, ds, fl)
            elif x["k"] == "ctor":
                for a, p in zip(x["args"], x.get("pt", [])):
                    if p.endswith("&") and not p.startswith("const ") and not p.endswith("&&"):
                        self._wr(a, ds, fl)
            elif x["k"] == "decl":
                for v in x["v"]:
                    ds.add(v["d"])
            elif x["k"] == "rfor":
                ds.add(x["var"]["d"])
            if t is not None:
                self._wr(t, ds, fl)
        return ds, fl

    def _wr(self, t, ds, fl):
        while t:
            if t["k"] == "ref":
                ds.add(t["d"])
                return
            if t["k"] == "mem":
                p = t
                fl.add(t["n"])
                t = t["b"]
                if t.get("t", "").rstrip().endswith("*") and p.get("arrow"):
                    return
            elif t["k"] == "idx":
                t = t["b"]
                if self.ptr_base(t):
                    fl.add("[]")
                    return
            elif t["k"] == "un" and t["op"] == "*":
                t = t["e"]
                if t.get("t", "").rstrip().endswith("*"):
                    fl.add("[]")
                    return
            elif t["k"] == "cast":
                t = t["e"]
            elif t["k"] == "call" and t.get("op") in ("[]", "*", "->"):
                t = t["args"][0]
            elif t["k"] == "call" and t.get("obj"):
                t = t["obj"]
            else:
                return

    def ptr_base(self, t):
        while t["k"] == "cast" and t.get("ck", "") != "ArrayToPointerDecay" and "[" not in t["e"].get("t", ""):
            t = t["e"]
        return t["k"] != "cast" and t.get("t", "").rstrip().endswith("*")

    def loc_written(self, loc, written, frame):
        ds, fl = written
        x = loc
        while isinstance(x, tuple):
            if x[0] == "var":
                return x[1] in ds
            if x[0] == "fld":
                if x[2] in fl:
                    return True
                x = x[1]
            elif x[0] in ("elem", "deref"):
                if "[]" in fl:
                    return True
                x = x[1]
            else:
                return False
        return False

    def term_written(self, term, written, frame):
        if not isinstance(term, tuple):
            return False
        if term and term[0] in ("init",) and len(term) > 1:
            return False
        if term and term[0] in ("ret",):
            return False
        return any(self.term_written(x, written, frame) for x in term if isinstance(x, tuple))

    def x_while(self, n, sts, frame):
        return self.loop(n, sts, frame, n["c"], n["body"], None, n.get("var"))

    def x_do(self, n, sts, frame):
        return self.loop(n, sts, frame, n["c"], n["body"], None, post=True)

    def x_for(self, n, sts, frame):
        decl = []
        if n.get("init"):
            o = self.exec(n["init"], sts, frame)
            sts = o.normal
            if n["init"]["k"] == "decl":
                decl = n["init"]["v"]
        o = self.loop(n, sts, frame, n.get("c"), n["body"], n.get("inc"))
        if decl:
            o.normal = self.destroy(o.normal, decl, frame)
            o.ret = self.destroy_ret(o.ret, decl, frame)
        return o

    ranges = {}

    def x_rfor(self, n, sts, frame):
        nxt = []
        for s in sts:
            nxt += self.eval(n["range"], s, frame, lv=True)
        out = Outcome()
        for s, rng in nxt:
            lst = self.listed(s, rng)
            if lst is not None:
                o = self.unrolled(n, s, frame, rng, lst)
            else:
                self.ranges[n["id"]] = rng
                o = self.loop(n, [s], frame, None, n["body"], None, range_for={"var": n["var"], "rng": rng, "n": n})
            out.normal += o.normal
            out.ret += o.ret
        out.normal = self.merge(out.normal)
        return out

    def listed(self, s, rng):
        """The elements of a braced list."""
        for _ in range(4):
            if rng[0] == "ilist":
                return rng[1] if len(rng[1]) <= 8 else None
            if not self.is_loc(rng):
                return None
            w = s.store.get(self.resolve_loc(s, rng))
            if w is None or w == rng:
                return None
            rng = w
        return None

    def unrolled(self, n, s, frame, rng, lst):
        out = Outcome()
        cur = [s]
        v = n["var"]
        loc = ("var", v["d"], frame)
        for x in lst:
            nxt = []
            for s in cur:
                s = s.copy()
                if self.is_loc(x):
                    s.store[loc] = ("refto", x) if v["t"].rstrip().endswith("&") else self.read_loc(s, x)
                else:
                    s.store[loc] = x
                nxt.append(s)
            o = self.exec(n["body"], self.merge(nxt), frame)
            out.normal += o.brk
            out.ret += o.ret
            cur = o.normal + o.cont
        out.normal += cur
        return out

    def range_next(self, rf, s, frame, it):
        v = rf["var"]
        loc = ("var", v["d"], frame)
        s = s.copy()
        el = ("elem", rf["rng"] if self.is_loc(rf["rng"]) else ("deref", rf["rng"]), ("iter", rf["n"]["id"]))
        self.kill_facts(s, el)
        if v["t"].rstrip().endswith("&"):
            s.store[loc] = ("refto", el)
        else:
            s.store[loc] = self.read_loc(s, el)
        for b in v.get("binds", []):
            s.store[("var", b["d"], frame)] = ("refto", ("fld", el, "#" + b["n"]))
        return [s]

    def x_switch(self, n, sts, frame):
        out = Outcome()
        items = n["body"]["c"] if n["body"]["k"] == "block" else [n["body"]]
        for s0 in sts:
            for s, v in self.eval(n["c"], s0, frame):
                cur = []
                pending = None
                has_default = False
                rest = s
                labels = []
                # Flatten labels.
                flat = []
                for it in items:
                    while it and it["k"] in ("case", "default"):
                        flat.append(("label", it))
                        it = it["s"]
                    flat.append(("stmt", it))
                taken_consts = []
                for kind, it in flat:
                    if kind == "label" and it["k"] == "case":
                        taken_consts.append(self.const_of(it["v"]))
                declared = []
                for kind, it in flat:
                    if kind == "label":
                        if it["k"] == "case":
                            c = self.const_of(it["v"])
                            cs, _ = self.assume(s, ("==", v, C(c)) if c is not None else ("casev", n["id"], it["id"]))
                            cs = [self.hook_branch(x, it, True, frame) for x in cs]
                            cur = self.merge(cur + cs)
                        else:
                            has_default = True
                            ds = [s]
                            for c in taken_consts:
                                if c is None:
                                    continue
                                nx = []
                                for d in ds:
                                    nx += self.assume(d, ("==", v, C(c)))[1]
                                ds = nx
                            cur = self.merge(cur + ds)
                    elif cur:
                        o = self.exec(it, cur, frame)
                        out.normal += self.destroy(o.brk, declared, frame)
                        out.cont += self.destroy(o.cont, declared, frame)
                        out.ret += self.destroy_ret(o.ret, declared, frame)
                        cur = o.normal
                        if it and it["k"] == "decl":
                            declared += it["v"]
                out.normal += self.destroy(cur, declared, frame)
                if not has_default:
                    ds = [s]
                    for c in taken_consts:
                        if c is None:
                            continue
                        nx = []
                        for d in ds:
                            nx += self.assume(d, ("==", v, C(c)))[1]
                        ds = nx
                    out.normal += ds
        out.normal = self.merge(out.normal)
        return out

    def const_of(self, n):
        if n is None:
            return None
        if "cv" in n:
            return n["cv"]
        if n["k"] == "cast":
            return self.const_of(n["e"])
        return None

    def x_break(self, n, sts, frame):
        return Outcome(brk=list(sts))

    def x_continue(self, n, sts, frame):
        return Outcome(cont=list(sts))

    # ---- conditions -------------------------------------------------------------------------------------------
    def cond(self, n, s, frame):
        """Splits s on condition n: (states where true, states where false)."""
        k = n["k"]
        if k == "un" and n["op"] == "!":
            t, f = self.cond(n["e"], s, frame)
            return f, t
        if k == "bin" and n["op"] == "&&":
            t, f = self.cond(n["L"], s, frame)
            t2, f2 = [], list(f)
            for x in self.merge(t):
                a, b = self.cond(n["R"], x, frame)
                t2 += a
                f2 += b
            return t2, f2
        if k == "bin" and n["op"] == "||":
            t, f = self.cond(n["L"], s, frame)
            t2, f2 = list(t), []
            for x in self.merge(f):
                a, b = self.cond(n["R"], x, frame)
                t2 += a
                f2 += b
            return t2, f2
        ts, fs = [], []
        for s2, v in self.eval(n, s, frame):
            a, b = self.assume(s2, v)
            ts += a
            fs += b
        return ts, fs

    def norm(self, v):
        """Normalises a boolean term to (atom, polarity) or a constant."""
        pol = True
        while True:
            if v[0] == "!":
                v, pol = v[1], not pol
                continue
            if v[0] == "!=":
                v, pol = ("==", v[1], v[2]), not pol
                continue
            if v[0] == ">":
                v = ("<", v[2], v[1])
                continue
            if v[0] == ">=":
                v, pol = ("<", v[1], v[2]), not pol
                continue
            if v[0] == "<=":
                v, pol = ("<", v[2], v[1]), not pol
                continue
            if v[0] == "tobool":
                v = v[1]
                continue
            if v[0] == "==":
                a, b = v[1], v[2]
                if a[0] in ("c", "null") and b[0] not in ("c", "null"):
                    a, b = b, a
                if a == b:
                    return (C(1 if pol else 0), True)
                if a[0] == "c" and b[0] == "c":
                    return (C(int((a[1] == b[1]) == pol)), True)
                if (b == C(0) or b == ("null",)):
                    v, pol = a, not pol
                    continue
                if a[0] == "addr" and b[0] == "addr" and a != b and self.distinct(a[1], b[1]):
                    return (C(int(not pol)), True)
                if repr(a) > repr(b) and b[0] != "c":
                    a, b = b, a
                v = ("==", a, b)
            break
        if v[0] == "c":
            return (C(int(bool(v[1]) == pol)), True)
        if v == ("null",):
            return (C(int(not pol)), True)
        if v[0] == "<" and v[1][0] == "c" and v[2][0] == "c":
            return (C(int((v[1][1] < v[2][1]) == pol)), True)
        if v[0] == "<" and v[1] == v[2]:
            return (C(int(not pol)), True)
        if v[0] in ("addr", "new", "lam"):
            return (C(int(pol)), True)
        return (v, pol)

    def distinct(self, a, b):
        return a[0] == "var" and b[0] == "var" and a != b

    def decide(self, s, v):
        a, pol = self.norm(v)
        if a[0] == "c":
            return bool(a[1])
        if a in s.facts:
            return s.facts[a] == pol
        if a[0] == "==" and a[2][0] == "c":
            # x == c1 is false if x == c2 is known for another constant, or x falsy and c1 != 0.
            for k, val in s.facts.items():
                if val and k[0] == "==" and k[1] == a[1] and k[2][0] == "c" and k[2] != a[2]:
                    return not pol
            if s.facts.get(a[1]) is False and a[2][1] != 0:
                return not pol
        else:
            for k, val in s.facts.items():
                if val and k[0] == "==" and k[1] == a and k[2][0] == "c" and k[2][1] != 0:
                    return pol
        return None

    def assume(self, s, v):
        d = self.decide(s, v)
        if d is True:
            return [s], []
        if d is False:
            return [], [s]
        a, pol = self.norm(v)
        t, f = s.copy(), s.copy()
        t.facts[a] = pol
        f.facts[a] = not pol
        return [t], [f]

    # ---- locations -------------------------------------------------------------------------------------------
    def is_loc(self, v):
        return v[0] in ("var", "fld", "elem", "deref", "glob", "this", "tmp")

    def resolve_loc(self, s, loc):
        if loc[0] == "var":
            v = s.store.get(loc)
            if v is not None and v[0] == "refto":
                return self.resolve_loc(s, v[1])
            return loc
        if loc[0] in ("fld", "elem"):
            b = self.resolve_loc(s, loc[1])
            loc = (loc[0], b) + loc[2:]
            if loc[0] == "fld":
                v = s.store.get(loc)
                if v is None and b in s.store and s.store[b][0] == "agg":
                    v = next((x for k, x in s.store[b][1] if k == loc[2]), None)
                if v is not None and v[0] == "refto" and v[1] != loc:
                    return self.resolve_loc(s, v[1])
            return loc
        if loc[0] == "deref":
            v = loc[1]
            if v[0] == "addr":
                return self.resolve_loc(s, v[1])
            return loc
        return loc

    def read_loc(self, s, loc):
        loc = self.resolve_loc(s, loc)
        if loc in s.store:
            return s.store[loc]
        # A field of an aggregate value that was copied as a whole.
        if loc[0] == "fld" and loc[1] in s.store and s.store[loc[1]][0] not in ("refto",):
            return self.field_of(s.store[loc[1]], loc[2], s)
        return ("init", loc)

    def field_of(self, v, name, s):
        if v[0] == "init" and self.is_loc(v[1]):
            # The value is a copy of what was at that location.
            return ("init", ("fld", v[1], name))
        if v[0] == "agg":
            for k, x in v[1]:
                if k == name:
                    return x
        return ("fldv", v, name)

    def kill(self, s, loc):
        """Forget everything stored at or below loc."""
        for k in list(s.store):
            if k != loc and self.below(k, loc):
                del s.store[k]

    def below(self, k, loc):
        while isinstance(k, tuple) and k and k[0] in ("fld", "elem"):
            k = k[1]
            if k == loc:
                return True
        return False

    def kill_facts(self, s, term):
        s.facts = {k: v for k, v in s.facts.items() if not mentions(k, term)}

    def write(self, s, loc, val, n, frame, init=False):
        loc = self.resolve_loc(s, loc) if not init else loc
        s = s.copy()
        self.kill(s, loc)
        self.kill_facts(s, ("init", loc))
        s.store[loc] = val
        r = self.hook_write(s, loc, val, n, frame)
        return r if r is not None else s

    # ---- expressions -------------------------------------------------------------------------------------------
    def eval(self, n, s, frame, lv=False, dst=None):
        """Evaluates n in s: [(state, value)]. With lv, yields a location when n denotes one."""
        if n is None:
            return [(s, ("void",))]
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return self.e_default(n, s, frame, lv)
        return m(n, s, frame, lv)

    def e_default(self, n, s, frame, lv):
        if "cv" in n:
            return [(s, C(n["cv"]))]
        rs = [s]
        vals = [()]
        for c in n.get("c", []) if isinstance(n.get("c"), list) else []:
            nx, nv = [], []
            for s1, v1 in zip(rs, vals):
                for s2, v in self.eval(c, s1, frame):
                    nx.append(s2)
                    nv.append(v1 + (v,))
            rs, vals = nx, nv
        return [(s1, ("op", n["k"], n.get("cls", ""), v)) for s1, v in zip(rs, vals)]

    def rv(self, s, v, n, frame, lv):
        if lv:
            return [(s, v)]
        loc = self.resolve_loc(s, v)
        self.hook_read(s, loc, n, frame)
        return [(s, self.read_loc(s, loc))]

    def e_ref(self, n, s, frame, lv):
        dk = n["dk"]
        if "cv" in n and not lv:
            return [(s, C(n["cv"]))]
        if dk == "enum":
            return [(s, C(n["cv"]) if "cv" in n else ("enum", n["q"]))]
        if dk == "func":
            return [(s, ("func", n["fid"]))]
        if n.get("g"):
            loc = ("glob", n["q"])
        else:
            loc = self.var_loc(n["d"], frame, s)
        return self.rv(s, loc, n, frame, lv)

    def var_loc(self, d, frame, s):
        # Variables of enclosing functions are visible in lambdas: search outwards.
        f = frame
        while True:
            loc = ("var", d, f)
            if loc in s.store:
                return loc
            if f and f[0] == "in":
                nf = f[2]
                f = nf
                continue
            break
        return ("var", d, self.home_frame(d, frame))

    def home_frame(self, d, frame):
        return frame

    def e_this(self, n, s, frame, lv):
        t = self.this_loc()
        return [(s, ("addr", t))]

    def e_mem(self, n, s, frame, lv):
        if n["dk"] == "func":
            return [(s, ("func", n["fid"]))]
        if n["dk"] == "svar":
            return self.rv(s, ("glob", n["q"]), n, frame, lv)
        out = []
        for s1, b in self.eval(n["b"], s, frame, lv=not n.get("arrow")):
            if n.get("arrow"):
                base = self.resolve_loc(s1, ("deref", b))
            else:
                base = b if self.is_loc(b) else None
            if base is None:
                out.append((s1, self.field_of(b, n["n"], s1)))
                continue
            out += self.rv(s1, ("fld", base, n["n"]), n, frame, lv)
        return out

    def e_idx(self, n, s, frame, lv):
        out = []
        for s1, b in self.eval(n["b"], s, frame):
            for s2, i in self.eval(n["i"], s1, frame):
                loc = ("elem", self.resolve_loc(s2, ("deref", b)), i)
                out += self.rv(s2, loc, n, frame, lv)
        return out

    def e_lit(self, n, s, frame, lv):
        if "s" in n:
            return [(s, ("str", n["s"]))]
        return [(s, C(n.get("cv", 0)))] if "cv" in n else [(s, ("lit", n["id"]))]

    def e_null(self, n, s, frame, lv):
        return [(s, ("null",))]

    def e_sizeof(self, n, s, frame, lv):
        return [(s, C(n["cv"]))] if "cv" in n else [(s, ("sizeof", n["at"]))]

    def e_zero(self, n, s, frame, lv):
        return [(s, C(0))]

    def e_defarg(self, n, s, frame, lv):
        return self.eval(n["e"], s, frame, lv)

    def e_cast(self, n, s, frame, lv):
        if n["to"].strip() == "void":
            return self.eval(n["e"], s, frame, lv=True)
        return [(s1, self.cast(n, v)) for s1, v in self.eval(n["e"], s, frame, lv=lv)]

    def cast(self, n, v):
        return v

    def e_un(self, n, s, frame, lv):
        op = n["op"]
        out = []
        if op == "&":
            for s1, v in self.eval(n["e"], s, frame, lv=True):
                out.append((s1, ("addr", self.resolve_loc(s1, v)) if self.is_loc(v) else ("addrv", v)))
            return out
        if op == "*":
            for s1, v in self.eval(n["e"], s, frame):
                out += self.rv(s1, self.resolve_loc(s1, ("deref", v)), n, frame, lv)
            return out
        if op in ("++", "--"):
            for s1, loc in self.eval(n["e"], s, frame, lv=True):
                if not self.is_loc(loc):
                    out.append((s1, ("op", n["id"])))
                    continue
                loc = self.resolve_loc(s1, loc)
                old = self.read_loc(s1, loc)
                new = self.binop("+" if op == "++" else "-", old, C(1))
                s2 = self.write(s1, loc, new, n, frame)
                out.append((s2, loc if lv else (old if n.get("post") else new)))
            return out
        for s1, v in self.eval(n["e"], s, frame):
            if op == "!":
                a = self.norm(("!", v))
                out.append((s1, a[0] if a[0][0] == "c" else ("!", v)))
            elif v[0] == "c" and op in ("-", "+", "~"):
                out.append((s1, C({"-": -v[1], "+": v[1], "~": ~v[1]}[op])))
            else:
                out.append((s1, ("un", op, v)))
        return out

    CMP = ("==", "!=", "<", ">", "<=", ">=")

    def binop(self, op, a, b):
        if op in self.CMP:
            r = (op, a, b)
            nm = self.norm(r)
            return nm[0] if nm[0][0] == "c" else r
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "+":
                    return C(a[1] + b[1])
                if op == "-":
                    return C(a[1] - b[1])
                if op == "*":
                    return C(a[1] * b[1])
                if op == "<<":
                    return C(a[1] << b[1])
                if op == "|":
                    return C(a[1] | b[1])
                if op == "&":
                    return C(a[1] & b[1])
            except Exception:
                pass
        d = self.term_depth(a) + self.term_depth(b)
        if d > 24:
            return ("bigop", op)
        return ("bin", op, a, b)

    def term_depth(self, t, lim=30):
        if not isinstance(t, tuple) or lim <= 0:
            return 1
        m = 0
        for x in t:
            if isinstance(x, tuple):
                m = max(m, self.term_depth(x, lim - 1))
        return m + 1

    def e_bin(self, n, s, frame, lv):
        op = n["op"]
        out = []
        if op in ("&&", "||"):
            t, f = self.cond(n, s, frame)
            return [(x, TRUE) for x in self.merge(t)] + [(x, FALSE) for x in self.merge(f)]
        if op == ",":
            for s1, _ in self.eval(n["L"], s, frame):
                out += self.eval(n["R"], s1, frame, lv)
            return out
        if op == "=":
            for s1, v in self.eval(n["R"], s, frame):
                for s2, loc in self.eval(n["L"], s1, frame, lv=True):
                    if self.is_loc(loc):
                        loc = self.resolve_loc(s2, loc)
                        s3 = self.write(s2, loc, v, n, frame)
                        out.append((s3, loc if lv else v))
                    else:
                        out.append((s2, v))
            return out
        if op.endswith("=") and op not in self.CMP:
            for s1, v in self.eval(n["R"], s, frame):
                for s2, loc in self.eval(n["L"], s1, frame, lv=True):
                    if self.is_loc(loc):
                        loc = self.resolve_loc(s2, loc)
                        nv = self.binop(op[:-1], self.read_loc(s2, loc), v)
                        s3 = self.write(s2, loc, nv, n, frame)
                        out.append((s3, loc if lv else nv))
                    else:
                        out.append((s2, v))
            return out
        for s1, a in self.eval(n["L"], s, frame):
            for s2, b in self.eval(n["R"], s1, frame):
                v = self.binop(op, a, b)
                if op in self.CMP:
                    d = self.decide(s2, v)
                    if d is not None:
                        v = TRUE if d else FALSE
                out.append((s2, v))
        return out

    def e_cond(self, n, s, frame, lv):
        t, f = self.cond(n["c"], s, frame)
        out = []
        for x in self.merge(t):
            out += self.eval(n["a"], self.hook_branch(x, n, True, frame), frame, lv)
        for x in self.merge(f):
            out += self.eval(n["b"], self.hook_branch(x, n, False, frame), frame, lv)
        return out

    def e_ilist(self, n, s, frame, lv):
        rs = [(s, ())]
        rec = self.prog.records.get(n.get("t", "").replace("const ", "").strip())
        for i, c in enumerate(n["c"]):
            nx = []
            ref = rec is not None and i < len(rec["fields"]) and rec["fields"][i].get("t", "").rstrip().endswith("&") and not rec.get("bases")
            for s1, vs in rs:
                for s2, v in self.eval(c, s1, frame, lv=ref):
                    if ref and self.is_loc(v):
                        v = ("refto", self.resolve_loc(s2, v))
                    nx.append((s2, vs + (v,)))
            rs = nx
        if rec and len(rec["fields"]) == len(n["c"]) and rec["fields"] and not rec.get("bases"):
            names = [f["n"] for f in rec["fields"]]
            return [(s1, ("agg", tuple(sorted(zip(names, vs), key=lambda x: x[0])), n["t"])) for s1, vs in rs]
        return [(s1, ("ilist", vs)) for s1, vs in rs]

    def e_lambda(self, n, s, frame, lv):
        self.lambdas[n["lam"]] = (n, self.frames[-1][0], self.this_loc())
        caps = []
        sts = [s]
        for c in n["caps"]:
            if c.get("init"):
                nx = []
                for s1 in sts:
                    for s2, v in self.eval(c["init"], s1, frame):
                        s3 = s2.copy()
                        s3.store[("var", c["d"], frame)] = v
                        nx.append(s3)
                sts = nx
        out = []
        for s1 in sts:
            r = self.hook_lambda(s1, n, frame)
            for s2 in ([s1] if r is None else r):
                out.append((s2, ("lam", n["lam"], frame)))
        return out

    def hook_lambda(self, s, n, frame):
        return None

    def e_new(self, n, s, frame, lv):
        rs = [(s, ())]
        for c in n.get("place", []):
            nx = []
            for s1, vs in rs:
                for s2, v in self.eval(c, s1, frame):
                    nx.append((s2, vs + (v,)))
            rs = nx
        out = []
        for s1, vs in rs:
            if n.get("init"):
                for s2, v in self.eval(n["init"], s1, frame):
                    out += self.do_new(s2, n, vs, v, frame)
            else:
                out += self.do_new(s1, n, vs, None, frame)
        return out

    def do_new(self, s, n, place, init, frame):
        return [(s, ("new", n["id"], n["at"]))]

    def e_delete(self, n, s, frame, lv):
        out = []
        for s1, v in self.eval(n["e"], s, frame):
            out += self.do_delete(s1, n, v, frame)
        return out

    def do_delete(self, s, n, v, frame):
        return [(s, ("void",))]

    # calls --------------------------------------------------------------------------------------------------------
    def by_ref(self, t):
        t = t.rstrip()
        return t.endswith("&")

    def e_ctor(self, n, s, frame, lv):
        return self.do_call(n, s, frame, None, n["args"], lv)

    def e_call(self, n, s, frame, lv):
        args = n["args"]
        obj = n.get("obj")
        op = n.get("op")
        if op and n.get("rec") is not None and len(args) >= 1 and len(n.get("pt", [])) == len(args) - 1:
            obj, args = args[0], args[1:]
        return self.do_call(n, s, frame, obj, args, lv)

    def do_call(self, n, s, frame, objn, argn, lv):
        self.stat_calls += 1
        rs = [(s, None, ())]
        if objn is not None:
            nx = []
            for s1, _, _ in rs:
                if n.get("arrow") :
                    for s2, v in self.eval(objn, s1, frame):
                        nx.append((s2, self.resolve_loc(s2, ("deref", v)), ()))
                else:
                    for s2, v in self.eval(objn, s1, frame, lv=True):
                        nx.append((s2, v, ()))
            rs = nx
        elif n.get("callee"):
            nx = []
            for s1, _, _ in rs:
                for s2, v in self.eval(n["callee"], s1, frame, lv=True):
                    nx.append((s2, v, ()))
            rs = nx
        pts = n.get("pt", [])
        for i, a in enumerate(argn):
            nx = []
            ref = i < len(pts) and self.by_ref(pts[i])
            for s1, o, vs in rs:
                for s2, v in self.eval(a, s1, frame, lv=ref):
                    nx.append((s2, o, vs + (v,)))
            rs = nx
        out = []
        for s1, o, vs in rs:
            out += self.dispatch(n, s1, o, vs, frame, lv)
        return self.merge_ret(out)

    def dispatch(self, n, s, obj, args, frame, lv):
        fid = n.get("fid")
        f = self.prog.callee(fid, self.frames[-1][0].tu if hasattr(self.frames[-1][0], "tu") else None) if fid else None
        if n["k"] == "ctor":
            r = self.hook_construct(s, n, args, frame)
        else:
            r = self.hook_call(s, n, f, obj, args, frame)
        if r is not None:
            return self.fin(r, n, frame, lv)
        # Copies and moves of values.
        if n["k"] == "ctor" and (n.get("copy") or n.get("move")) and len(args) >= 1:
            v = args[0]
            return [(s, self.read_loc(s, v) if self.is_loc(v) else v)]
        q = n.get("fn", "")
        if q in ("std::move", "std::forward", "std::as_const", "std::addressof") and args:
            if q == "std::addressof":
                return [(s, ("addr", self.resolve_loc(s, args[0])))]
            v = args[0]
            return self.rv(s, v, n, frame, lv) if self.is_loc(v) else [(s, v)]
        # Assignment operators of class type without a modelled body.
        # Lambdas.
        if n.get("lam") in self.lambdas:
            return self.fin(self.call_lambda(s, n, self.lambdas[n["lam"]], args, frame, obj), n, frame, lv)
        if obj is not None and n.get("op") == "()" or (n.get("callee") is not None):
            v = self.read_loc(s, obj) if (obj and self.is_loc(obj)) else obj
            if v and v[0] == "lam" and v[1] in self.lambdas:
                return self.fin(self.call_lambda(s, n, self.lambdas[v[1]], args, frame, obj, v), n, frame, lv)
            if v and v[0] == "func":
                f2 = self.prog.callee(v[1])
                if f2 and self.can_inline(f2, n):
                    return self.fin(self.inline(s, n, f2, None, args, frame), n, frame, lv)
        if f is not None and not (n.get("virt") and not n.get("qual") and self.prog.overriders(fid)) and self.can_inline(f, n):
            return self.fin(self.inline(s, n, f, obj, args, frame), n, frame, lv)
        return self.opaque(s, n, f, obj, args, frame)

    def fin(self, rs, n, frame, lv):
        """Results of reference-returning callees are locations; read them unless a location is wanted."""
        out = []
        for s, v in rs:
            if self.is_loc(v) and not lv:
                out.append((s, self.read_loc(s, v)))
            else:
                out.append((s, v))
        return out

    def can_inline(self, f, n):
        if f.body is None or f.dep:
            return False
        if len(self.frames) > self.MAX_DEPTH:
            return False
        if any(fr[0] is f for fr in self.frames):
            return False
        k = id(f)
        if k not in self._size:
            self._size[k] = sum(1 for _ in walk(f.body))
        if self._size[k] > self.INLINE_NODES:
            return False
        return self.inline_ok(f, n)

    def inline(self, s, n, f, obj, args, frame):
        nf = ("call", n["id"], len(self.frames), ())
        s = s.copy()
        # Recursion-free frames can be reused: forget stale locals of the same frame.
        for k in list(s.store):
            if k[0] == "var" and k[2] == nf:
                del s.store[k]
        for p, a in zip(f.params, args):
            loc = ("var", p["d"], nf)
            if self.by_ref(p["t"]) and self.is_loc(a):
                s.store[loc] = ("refto", self.resolve_loc(s, a))
            else:
                s.store[loc] = a
        if f.kind == "ctor":
            this = ("tmp", n["id"])
            self.kill(s, this)
            s.store.pop(this, None)
        else:
            this = self.resolve_loc(s, obj) if (obj is not None and self.is_loc(obj)) else ("deref", obj) if obj is not None else ("none",)
        self.frames.append((f, nf, this))
        sts = [s]
        for ini in f.inits:
            nxt = []
            for x in sts:
                nxt += self.ctor_init(x, ini, nf)
            sts = nxt
        o = self.exec_list(f.body, sts, nf)
        self.frames.pop()
        outs = [(x, ("void",)) for x in o.normal] + o.ret
        res = []
        for x, v in outs:
            if f.kind == "ctor":
                # The object's value: collect fields as an aggregate.
                fl = tuple(sorted((k[2], val) for k, val in x.store.items() if k[0] == "fld" and k[1] == this))
                v = ("agg", fl, f.recq)
            if self.is_loc(v):
                v = self.detach(x, v, nf)
            x = self.gc(self.leave(x, nf), v)
            res.append((x, v))
        return self.merge_ret(res)

    def detach(self, s, loc, nf):
        """A returned location rooted in a dying local denotes the local's value."""
        b = loc
        while b[0] in ("fld", "elem"):
            b = b[1]
        if b[0] == "var" and b[2] == nf:
            return self.read_loc(s, loc)
        return loc

    def leave(self, s, nf):
        s = s.copy()
        for k in list(s.store):
            b = k
            while b[0] in ("fld", "elem"):
                b = b[1]
            if b[0] == "var" and b[2] == nf:
                del s.store[k]
        return s

    def call_lambda(self, s, n, ent, args, frame, obj=None, v=None):
        node, f, this = ent
        if len(self.frames) > self.MAX_DEPTH or any(fr[0] is node.get("body") for fr in self.frames):
            return self.opaque(s, n, None, obj, args, frame)
        body, params = node["body"], node["params"]
        for i in node.get("insts", []) or []:
            if i["fid"] == n.get("fid"):
                body, params = i["body"], i["params"]
        home = v[2] if v else None
        if home is None and obj is not None:
            lv_ = self.read_loc(s, obj) if self.is_loc(obj) else obj
            if lv_ and lv_[0] == "lam":
                home = lv_[2]
        if home is None:
            home = frame
        nf = ("in", n["id"], home)
        s = s.copy()
        for k in list(s.store):
            if k[0] == "var" and k[2] == nf:
                del s.store[k]
        for p, a in zip(params, args):
            loc = ("var", p["d"], nf)
            if self.by_ref(p["t"]) and self.is_loc(a):
                s.store[loc] = ("refto", self.resolve_loc(s, a))
            else:
                s.store[loc] = a

        class LF:
            pass
        lf = LF()
        lf.rt = node.get("rt")
        lf.tu = f.tu
        lf.body = body
        lf.q = f.q + "::lambda"
        lf.file = f.file
        self.frames.append((lf, nf, this))
        o = self.exec_list(body, [s], nf)
        self.frames.pop()
        outs = [(x, ("void",)) for x in o.normal] + o.ret
        return self.merge_ret([(self.gc(self.leave(x, nf), v2), v2) for x, v2 in outs])

    def opaque(self, s, n, f, obj, args, frame):
        """An unknown call: its result is a fresh term for this call site; by-reference arguments are havocked."""
        s = s.copy()
        pts = n.get("pt", [])
        if self.pure(f, n):
            o = None
            if obj is not None:
                o = self.read_loc(s, obj) if self.is_loc(obj) else obj
            t = ("pcall", n.get("fid") or n.get("fn"), o, tuple(self.read_loc(s, a) if self.is_loc(a) else a for a in args))
            return [(s, t)]
        for i, a in enumerate(args):
            if i < len(pts) and self.is_loc(a):
                t = pts[i].rstrip()
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                    loc = self.resolve_loc(s, a)
                    self.kill(s, loc)
                    self.kill_facts(s, ("init", loc))
                    s.store[loc] = ("out", n["id"], i)
            elif i < len(pts) and a[0] == "addr" and pts[i].rstrip().endswith("*") and not pts[i].startswith("const "):
                loc = self.resolve_loc(s, a[1])
                self.kill(s, loc)
                s.store[loc] = ("out", n["id"], i)
        if obj is not None and self.is_loc(obj) and n["k"] == "call" and not n.get("cm") and not n.get("callee"):
            loc = self.resolve_loc(s, obj)
            if loc[0] == "var" or n.get("op", "").endswith("="):
                self.kill(s, loc)
                if n.get("op") == "=" and args:
                    s.store[loc] = self.read_loc(s, args[0]) if self.is_loc(args[0]) else args[0]
                    return [(s, loc)]
                if loc in s.store and s.store[loc][0] != "refto":
                    s.store[loc] = ("mut", n["id"], loc)
        if n.get("op") in self.CMP and n["t"] == "bool":
            ops = ([obj] if obj is not None else []) + list(args)
            if len(ops) == 2:
                a, b = (self.read_loc(s, x) if self.is_loc(x) else x for x in ops)
                return [(s, self.binop(n["op"], a, b))]
        t = ("ret", n["id"])
        self.kill_facts(s, t)
        # Values from an earlier evaluation of the same site become stale.
        for k, v in list(s.store.items()):
            if mentions(v, t):
                s.store[k] = self.subst(v, t, ("stale", n["id"]))
        return [(s, t)]

    def subst(self, v, a, b):
        if v == a:
            return b
        if isinstance(v, tuple):
            return tuple(self.subst(x, a, b) if isinstance(x, tuple) else x for x in v)
        return v

    # reports -----------------------------------------------------------------------------------------------------
    def report(self, n, msg, frame=None):
        f = None
        for fr in reversed(self.frames):
            if hasattr(fr[0], "file"):
                f = fr[0]
                break
        chain = [getattr(fr[0], "q", "?") for fr in self.frames]
        r = {"file": f.file if f else "?", "line": (n or {}).get("l", 0), "msg": msg, "in": " > ".join(chain)}
        if r not in self.reports:
            self.reports.append(r)
