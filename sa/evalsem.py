"""The interpreter's semantics, abstractly: bindings, in-place buffer changes, allocations, statuses and tasks.

Every evaluator member function that takes an IR node is analysed as a root, assuming by induction that evaluating a child
(through the dispatching overloads taking expr/stmt) restores bindings and buffers, and returns zero or non-zero. All other
library functions are inlined. Each check reads off the events and exit states it is about.
"""
from collections import namedtuple

from .program import Program, AnalysisBroken, AnchorMissing, walk_fn, walk, show, children
from . import bounds
from .flow import Interp, State, C, TRUE, FALSE, mentions

EV = "slinky::(anonymous namespace)::evaluator"
CTX_T = "slinky::eval_context"
ZERO_ID = ("maxid", frozenset())

Chk = namedtuple("Chk", "dirty saves restoring err events live freed tasks reserved slots rankg")
CHK0 = Chk(frozenset(), frozenset(), frozenset(), None, frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(),
           frozenset())


class Loop:
    def __init__(self, n, frame):
        self.n, self.frame = n, frame
        self.counters = {}     # location -> Counter
        self.src = None


class Counter:
    def __init__(self, d, dir, init):
        self.d, self.dir, self.init = d, dir, init


class Use:
    """An element index that varies with a loop."""
    def __init__(self, L, idx, dir):
        self.L, self.n, self.idx, self.dir = L, L.n, idx, dir


def strip(x):
    while x and x["k"] == "cast":
        x = x["e"]
    return x


def step_of(x):
    """(declaration, step) if x adds a constant one to a variable."""
    if x["k"] == "un" and x["op"] in ("++", "--"):
        v, st = strip(x["e"]), 1 if x["op"] == "++" else -1
    elif x["k"] == "bin" and x["op"] in ("+=", "-=") and x["R"].get("cv") == 1:
        v, st = strip(x["L"]), 1 if x["op"] == "+=" else -1
    elif x["k"] == "bin" and x["op"] == "=":
        v, r = strip(x["L"]), strip(x["R"])
        if not (v and v["k"] == "ref" and r and r["k"] == "bin" and r["op"] in ("+", "-") and r["R"].get("cv") == 1):
            return None
        w = strip(r["L"])
        if not (w and w["k"] == "ref" and w["d"] == v["d"]):
            return None
        st = 1 if r["op"] == "+" else -1
    else:
        return None
    if v and v["k"] == "ref" and not v.get("g") and not v.get("t", "").rstrip().endswith("*"):
        return v["d"], st
    return None


def assigned(x):
    """Declarations x itself assigns, or lets others assign."""
    out = []
    if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
        out.append(x["L"])
    elif x["k"] == "un" and x["op"] in ("++", "--", "&"):
        out.append(x["e"])
    elif x["k"] in ("call", "ctor"):
        for a, p in zip(x["args"], x.get("pt", [])):
            if p.endswith("&") and not p.startswith("const "):
                out.append(a)
    return [y["d"] for y in map(strip, out) if y and y["k"] == "ref"]


def conjuncts(c):
    c = strip(c)
    if c and c["k"] == "bin" and c["op"] == "&&":
        return conjuncts(c["L"]) + conjuncts(c["R"])
    return [c] if c else []


def canon(t):
    b, c = bounds.split(t)
    if b == ("c", 0):
        return C(c)
    return b if c == 0 else ("bin", "+", b, C(c))


class EvInterp(Interp):
    DIVS = ("slinky::floor_div", "slinky::ceil_div", "slinky::euclidean_div", "slinky::round_div")
    INLINE_NODES = 700
    MAX_STATES = 40

    def __init__(self, prog):
        super().__init__(prog)
        self.events = []
        self.loops = []
        self.root = None
        self.intask = []       # stack of (task id, frame, own vars, parallel?)
        self.task_info = {}
        self.rootset = set()
        self.undecided = []
        self.binds = []        # (root, generic symbol, value, task?, enclosing loops, state, node)
        self.pfors = []        # (root, number of iterations, state, node)
        self.child_src = {}    # value of an evaluated child -> where the child is

    # ---- reporting
    def ev(self, cat, ok, n, msg):
        f = next((fr[0] for fr in reversed(self.frames) if hasattr(fr[0], "file")), self.root)
        e = (cat, ok, f.file, (n or {}).get("l", 0) or f.line, msg, self.root.fid)
        if e not in self.events:
            self.events.append(e)

    def undec(self, n, msg):
        t = "%s:%d %s" % (self.root.file, (n or {}).get("l", 0), msg)
        if t not in self.undecided:
            self.undecided.append(t)

    # ---- loops
    def x_loop(self, m, n, sts, frame):
        self.loops.append(Loop(n, frame))
        r = m(n, sts, frame)
        self.loops.pop()
        return r

    def x_for(self, n, sts, frame):
        return self.x_loop(super().x_for, n, sts, frame)

    def x_while(self, n, sts, frame):
        return self.x_loop(super().x_while, n, sts, frame)

    def x_do(self, n, sts, frame):
        return self.x_loop(super().x_do, n, sts, frame)

    def x_rfor(self, n, sts, frame):
        return self.x_loop(super().x_rfor, n, sts, frame)

    def loop(self, n, sts, frame, cond, body, inc, decl_var=None, post=False, range_for=None):
        L = self.loops[-1]
        if range_for is not None and sts:
            r = range_for["rng"]
            L.src = self.resolve_loc(sts[0], r) if self.is_loc(r) else ("deref", r)
        # Counting variables are symbolic from the first iteration on.
        parts = [x for x in (cond, body, inc) if x]
        inner = {v["d"] for p in parts for x in walk(p) if x["k"] == "decl" for v in x["v"]}
        steps, writes = {}, {}
        for p in parts:
            for x in walk(p):
                for d in assigned(x):
                    writes[d] = writes.get(d, 0) + 1
                st = step_of(x)
                if st:
                    steps[st[0]] = st[1]
        for d, st in steps.items():
            if writes.get(d) != 1 or d in inner or not sts:
                continue
            loc = self.var_loc(d, frame, sts[0])
            if any(loc not in s.store or s.store[loc][0] == "refto" for s in sts):
                continue
            vals = {C(0) if s.store[loc] == ZERO_ID else s.store[loc] for s in sts}
            L.counters[loc] = Counter(d, "up" if st > 0 else "down", vals.pop() if len(vals) == 1 else None)
            nxt = []
            atom = ("loop", n["id"], loc)
            for s in sts:
                s = s.copy()
                self.kill_facts(s, atom)
                s.store[loc] = atom
                nxt.append(s)
            sts = nxt
        return super().loop(n, sts, frame, cond, body, inc, decl_var, post, range_for)

    def index_use(self, s, idx):
        """How idx varies with an enclosing loop: a Use, or None."""
        for L in reversed(self.loops):
            if idx[0] == "iter":
                if L.n["id"] == idx[1]:
                    return Use(L, idx, "up")
                continue
            b = bounds.split(idx)[0]
            if b[0] == "loop" and b[1] == L.n["id"]:
                k = L.counters.get(b[2])
                return Use(L, idx, k.dir if k else None)
            if mentions_loop(idx, L.n["id"]):
                return Use(L, idx, None)
        return None

    def generic(self, s, loc):
        """Replaces the index of the innermost loop-varying element in loc by '*': (loc, how it varies)."""
        if not isinstance(loc, tuple) or not loc:
            return loc, None
        if loc[0] == "elem" and len(loc) == 3:
            U = self.index_use(s, loc[2])
            b, U2 = self.generic(s, loc[1])
            if U is not None:
                return ("elem", b, ("*",)), U
            return ("elem", b, loc[2]), U2
        if loc[0] in ("fld", "deref", "init", "ovar"):
            b, U = self.generic(s, loc[1])
            return (loc[0], b) + tuple(loc[2:]), U
        return loc, None

    def limits(self, s, L):
        """Values a loop's counters take at its head: {location: (counter, first, last)}, as terms; None where unknown."""
        out = {}
        cs = conjuncts(L.n.get("c")) if L.n["k"] != "rfor" else []
        for loc, k in L.counters.items():
            other = None
            if L.n["k"] == "rfor":
                if L.src is not None and k.init is not None and k.dir == "up":
                    other = ("bin", "-", ("size", L.src), C(1)) if k.init == C(0) else None
                out[loc] = (k, k.init, other)
                continue
            for c in cs:
                op, v, o = None, None, None
                if c["k"] == "bin" and c["op"] in ("<", ">", "<=", ">=", "!="):
                    op, v, o = c["op"], strip(c["L"]), c["R"]
                    if not self.is_counter(v, k.d):
                        op, v, o = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op], strip(c["R"]), c["L"]
                elif self.is_counter(c, k.d):
                    op, v, o = "!=", c, None
                if not self.is_counter(v, k.d):
                    continue
                lim = C(0) if o is None else self.quiet_eval(o, s, L.frame)
                if lim is None:
                    continue
                if v["k"] == "un" and not v.get("post"):
                    lim = ("bin", "-" if v["op"] == "++" else "+", lim, C(1))
                if k.dir == "up" and op in ("<", "!="):
                    other = ("bin", "-", lim, C(1))
                elif k.dir == "up" and op == "<=":
                    other = lim
                elif k.dir == "down" and op in (">", "!="):
                    other = ("bin", "+", lim, C(1))
                elif k.dir == "down" and op == ">=":
                    other = lim
            out[loc] = (k, k.init, other)
        return out

    def is_counter(self, v, d):
        v = strip(v)
        if v and v["k"] == "un" and v["op"] in ("++", "--"):
            v = strip(v["e"])
        return v is not None and v["k"] == "ref" and v.get("d") == d

    def quiet_eval(self, n, s, frame):
        ev, un, rp = list(self.events), list(self.undecided), list(self.reports)
        try:
            r = self.eval(n, s.copy(), frame)
            return r[0][1] if len(r) == 1 else None
        except Exception:
            return None
        finally:
            self.events, self.undecided, self.reports = ev, un, rp

    def range_of(self, s, U):
        """(lowest index, number of indices) covered by a loop-varying index, or None."""
        if U is None:
            return None
        if U.idx is not None and U.idx[0] == "iter":
            return (0, repr(canon(("size", U.L.src)))) if U.L.src else None
        b, c = bounds.split(U.idx)
        if b[0] != "loop":
            return None
        lim = self.limits(s, U.L).get(b[2])
        if lim is None or lim[1] is None or lim[2] is None:
            return None
        k, first, last = lim
        lo, hi = (first, last) if k.dir == "up" else (last, first)
        lo = canon(("bin", "+", lo, C(c)))
        if lo[0] != "c":
            return None
        return (lo[1], repr(canon(("bin", "+", hi, C(c + 1)))))

    def loop_range(self, s, L):
        """The text of the number of iterations, if the loop is a plain count."""
        if L.n["k"] == "rfor":
            return repr(canon(("size", L.src))) if L.src else None
        if L.n["k"] == "do":
            return None
        for loc, (k, first, last) in self.limits(s, L).items():
            if first is None or last is None:
                continue
            lo, hi = (first, last) if k.dir == "up" else (last, first)
            b, c = bounds.split(lo)
            if b == ("c", 0):
                return repr(canon(("bin", "-", hi, C(c - 1))))
        return None

    def covers(self, r, e):
        """Do the restored indices r cover the changed indices e? None if unknown."""
        if r is None or e is None:
            return None
        if r[0] > e[0]:
            return False
        return r[1] == e[1]

    def loop_enter(self, s, n, frame, it):
        s = s.copy()
        for k in list(s.store):
            x = k
            while isinstance(x, tuple) and x and x[0] in ("fld", "elem"):
                if x[0] == "elem" and isinstance(x[2], tuple) and (mentions_loop(x[2], n["id"]) or x[2] == ("iter", n["id"])):
                    del s.store[k]
                    break
                x = x[1]
        return self.know_runs(s, n, True) if it == 0 else s

    def know_runs(self, s, n, runs):
        """Records that a counting loop runs at least once, or not at all; None if that is known to be false."""
        L = next((L for L in reversed(self.loops) if L.n["id"] == n["id"]), None)
        if L is None or n["k"] == "do" or (runs is False and n["k"] != "rfor" and len(conjuncts(n.get("c"))) != 1):
            return s
        conds = []
        if n["k"] == "rfor":
            if L.src:
                conds = [("<", C(0), ("size", L.src))]
        else:
            for loc, (k, first, last) in self.limits(s, L).items():
                if first is not None and last is not None:
                    lo, hi = (first, last) if k.dir == "up" else (last, first)
                    b, c = bounds.split(lo)
                    if b == ("c", 0):
                        conds.append(("<", C(0), canon(("bin", "-", hi, C(c - 1)))))
                    else:
                        conds.append(("<=", lo, hi))
        for c in conds:
            t, f = self.assume(s, c)
            r = t if runs else f
            if not r:
                return None
            s = r[0]
        return s

    def has_break(self, n):
        def go(x):
            if x["k"] in ("break", "return", "goto"):
                return True
            if x["k"] == "lambda":
                return False
            if x["k"] in ("for", "while", "do", "rfor", "switch") and x is not n:
                return any(y["k"] in ("return", "goto") for y in walk(x))
            return any(go(y) for y in children(x))
        return go(n)

    def loop_exit(self, s, n, frame, it):
        L = next((L for L in reversed(self.loops) if L.n["id"] == n["id"]), None)
        t = self.loop_range(s, L) if L is not None else None
        if it == 0 and L is not None and not any(r[1] == n["id"] for r in s.chk.restoring):
            if t is not None and any(e[1] == (0, t) for e in s.chk.dirty):
                # An earlier loop over the same range ran at least once, so this one does too.
                return None
        if it == 0:
            s = self.know_runs(s, n, False)
            if s is None:
                return None
        if L is not None and L.counters and not self.has_break(n) and (n["k"] == "rfor" or len(conjuncts(n.get("c"))) == 1):
            lim = self.limits(s, L)
            s = s.copy()
            for loc, (k, first, last) in lim.items():
                if last is not None and first == C(0) and k.dir == "up" and s.store.get(loc, (0,))[0] == "loop":
                    s.store[loc] = canon(("bin", "+", last, C(1)))
        if it == 0 and L is not None and t is not None:
            s = s.copy()
            s.chk = s.chk._replace(reserved=s.chk.reserved | {("empty", t)})
        mine = [r for r in s.chk.restoring if r[1] == n["id"]]
        if mine:
            s = s.copy()
            dirty = set(s.chk.dirty)
            for R, _, text, d in mine:
                for e in [e for e in dirty if e[0] == R or (R[0] == "buf" and e[0][0] == "buf" and self.below(e[0][1], R[1]))]:
                    cov = self.covers(text, e[1])
                    if cov is False:
                        self.ev("restore", False, n, "only part of what was changed is restored: changed for indices from %d below %s, "
                                "restored from %d below %s" % (e[1][0], self.pretty(e[1][1]), text[0], self.pretty(text[1])))
                    elif cov is None:
                        self.undec(n, "ranges of changed and restored elements not understood")
                    if R[0] == "bind" and e[2] is not None and d is not None and e[2] == d:
                        self.ev("restore", False, n, "bindings of a list are restored in the order they were made; "
                                "a symbol bound twice keeps its first value")
                    elif R[0] == "bind":
                        self.ev("restore", True, n, "bindings of a list restored in reverse order")
                    dirty.discard(e)
            s.chk = s.chk._replace(dirty=frozenset(dirty), restoring=frozenset(r for r in s.chk.restoring if r[1] != n["id"]))
        return s

    def pretty(self, t):
        import re
        return ".".join(re.findall(r"'([a-z_]\w+)'", t)[-4:]) if "(" in t else t

    # ---- dimensions
    WEIRD = ("phi", "mut", "out", "stale", "bigop", "uninit", "lit")

    def e_idx(self, n, s, frame, lv):
        out = []
        for s1, b in self.eval(n["b"], s, frame):
            for s2, i in self.eval(n["i"], s1, frame):
                self.dim_access(s2, n, b, i)
                loc = ("elem", self.resolve_loc(s2, ("deref", b)), i)
                out += self.rv(s2, loc, n, frame, lv)
        return out

    def extra_bounds(self, s):
        ex = []
        for L in self.loops:
            for loc, (k, first, last) in self.limits(s, L).items():
                hi = last if k.dir == "up" else first
                if hi is not None:
                    ex.append((("loop", L.n["id"], loc), hi, 0))
            if L.src is not None:
                ex.append((("iter", L.n["id"]), ("size", L.src), -1))
        return ex

    def dim_access(self, s, n, b, i):
        if b[0] == "alloca":
            return self.prove_below(s, n, i, b[2], "element %s of a stack array" % show(n["i"]), "its size")
        if not (b[0] == "init" and b[1][0] == "fld" and b[1][2] == "dims" and self.shared(b[1])):
            return
        B = b[1][1]
        rank = s.store.get(("fld", B, "rank"), ("init", ("fld", B, "rank")))
        self.prove_below(s, n, i, rank, "dims[%s]" % show(n["i"]), "the buffer's rank")

    def prove_below(self, s, n, i, limit, what, lname, weak=False):
        ex = self.extra_bounds(s)
        if weak:
            i = ("bin", "-", i, C(1))
        if bounds.less(s.facts, i, limit, ex):
            self.ev("dims", True, n, "%s: below %s" % (what, lname))
        elif any(mentions_tag(i, w) or mentions_tag(limit, w) for w in self.WEIRD) or self.nonlinear(i) or \
                (bounds.split(i)[0][0] == "loop" and bounds.known_upper(s.facts, i, ex) is None):
            self.undec(n, what + ": index not understood")
        else:
            self.ev("dims", False, n, "%s: not known to be below %s" % (what, lname))

    def nonlinear(self, t):
        return isinstance(t, tuple) and ((t[:1] == ("bin",) and t[1] not in ("+", "-")) or any(self.nonlinear(x) for x in t))

    # ---- resources
    def shared(self, loc):
        """Is this location part of a buffer reached through the context?"""
        while isinstance(loc, tuple) and loc:
            if loc[0] == "lookup":
                return True
            if loc[0] in ("fld", "elem", "deref", "init", "addr", "fldv", "cast", "refto"):
                loc = loc[1]
            elif loc[0] == "bin":
                loc = loc[2]
            else:
                return False
        return False

    def is_ctx(self, loc):
        return loc is not None and loc[0] == "fld" and loc[2] == "context" and loc[1][0] == "this"

    def hook_write(self, s, loc, val, n, frame):
        if n is not None and self.intask:
            self.task_write(s, loc, n)
        if loc[0] == "elem" and loc[1][0] == "slot":
            if loc[1] not in s.chk.slots:
                self.ev("slots", False, n, "a reference into the context is used after the context may have grown")
            return self.bind(s, loc[2], val, n, ctx=loc[1][2])[0][0]
        if self.shared(loc) and loc[0] in ("fld", "elem") and not (loc[0] == "fld" and loc[2] == "allocation"):
            return self.mutate(s, loc, val, n)
        # Saving an original value in an array or a field of a local.
        if loc[0] in ("elem", "fld"):
            orig = self.orig_of(s, val)
            if orig is not None:
                A, L = self.generic(s, loc)
                if L is not None:
                    s = s.copy()
                    s.chk = s.chk._replace(saves=frozenset(x for x in s.chk.saves if x[0] != A) | {(A, orig)})
                    return s
            elif s.chk.saves:
                A, L = self.generic(s, loc)
                if any(a == A or self.below(a, A) for a, _ in s.chk.saves):
                    s = s.copy()
                    s.chk = s.chk._replace(saves=frozenset(x for x in s.chk.saves if x[0] != A and not self.below(x[0], A)))
                    return s
        # A local buffer's allocation field is reset.
        return None

    def orig_of(self, s, val):
        """The resource whose original value val is."""
        if val[0] == "orig":
            return val[1]
        if val[0] == "init" and self.shared(val[1]):
            return self.generic(s, val[1])[0]
        return None

    def mutate(self, s, loc, val, n):
        R, L = self.generic(s, loc)
        R = ("buf", R)
        o = self.orig_of(s, val)
        if loc[0] == "fld" and loc[2] == "rank" and o is None and val[0] != "orig":
            self.prove_below(s, n, ("bin", "-", val, C(1)), ("init", loc), "rank changed in place", "or equal to the buffer's rank")
        if o is not None and o == R[1] or val == ("orig", R[1]):
            if any(k[0] == "fld" and k[1] == loc for k in s.store):
                s = s.copy()
                self.kill(s, loc)
            return self.restored(s, R, L, n)
        s = s.copy()
        text = self.range_of(s, L)
        s.chk = s.chk._replace(dirty=frozenset(e for e in s.chk.dirty if e[0] != R) | {(R, text, L.dir if L else None, None)})
        return s

    def restored(self, s, R, L, n):
        s = s.copy()

        def hit(e):
            return e[0] == R or (R[0] == "buf" and e[0][0] == "buf" and self.below(e[0][1], R[1]))
        if not any(hit(e) for e in s.chk.dirty):
            return s
        if L is None:
            s.chk = s.chk._replace(dirty=frozenset(e for e in s.chk.dirty if not hit(e)))
        else:
            s.chk = s.chk._replace(restoring=s.chk.restoring | {(R, L.n["id"], self.range_of(s, L), L.dir)})
        return s

    def bind(self, s, sym, val, n, ctx):
        """context.set(sym, val): [(state, previous value)]."""
        g, L = self.generic(s, sym)
        R = ("bind", g)
        if self.is_ctx(ctx):
            self.check_reserved(s, sym, g, n)
        self.binds.append((self.root, g, val, bool(self.intask), list(self.loops), s, n))
        cur = next((e for e in s.chk.dirty if e[0] == R), None)
        prev = cur[3] if cur is not None and cur[3] is not None else ("orig", R)
        if not self.is_ctx(ctx):
            return [(s, prev)]
        self.task_ctx_use(s, ctx, n, True)
        if self.intask_root(ctx):
            pass
        if val == ("orig", R) or (L is None and len(val) == 3 and val[0] == "lookup" and val[1] == ctx and self.generic(s, val[2])[0] == g):
            return [(self.restored(s, R, L, n), prev)]
        s = s.copy()
        text = self.range_of(s, L)
        s.chk = s.chk._replace(dirty=frozenset(e for e in s.chk.dirty if e[0] != R) | {
            (R, text, L.dir if L else None, val if L is None else None)})
        self.ev("bind", True, n, "binding of %s changed" % self.symname(sym))
        return [(s, prev)]

    def intask_root(self, ctx):
        return False

    def symname(self, sym):
        names = []

        def go(t):
            if isinstance(t, tuple):
                if t and t[0] == "fld":
                    go(t[1])
                    names.append(str(t[2]))
                    return
                for x in t:
                    go(x)
        go(sym)
        return ".".join(names[-2:]) or "symbol"

    def check_reserved(self, s, sym, g, n):
        for r in s.chk.reserved:
            if r == g or r == ("all",) or r == ("empty", self.list_text(g)):
                self.ev("reserve", True, n, "slot of %s exists before it is written" % self.symname(sym))
                return
        self.ev("reserve", False, n, "the binding of %s is written without making sure its slot exists" % self.symname(sym))

    def list_text(self, g):
        while isinstance(g, tuple) and g:
            if g[0] == "elem":
                return repr(canon(("size", g[1])))
            if g[0] not in ("fld", "init", "deref"):
                return None
            g = g[1]
        return None

    def read_loc(self, s, loc):
        loc = self.resolve_loc(s, loc)
        if loc[0] in ("elem", "fld") and s.chk.saves:
            A, L = self.generic(s, loc)
            if L is not None:
                for a, R in s.chk.saves:
                    if a == A:
                        return ("orig", R)
        if loc[0] == "elem" and loc[1][0] == "slot":
            cur = next((e for e in s.chk.dirty if e[0] == ("bind", loc[2])), None)
            return cur[3] if cur and cur[3] is not None else ("orig", ("bind", loc[2]))
        if s.chk.tasks and not self.intask:
            for t in s.chk.tasks:
                if loc in t[2]:
                    self.ev("task", False, None, "%s is read while a task that writes it may be running" % self.symname(loc))
        if loc not in s.store and (loc[0] in ("elem", "deref") or self.shared(loc)):
            over = [(k, v) for k, v in s.store.items() if k[0] == "fld" and k[1] == loc]
            if over:
                return ("over", super().read_loc(s, loc), tuple(sorted(((k[2], v) for k, v in over), key=repr)))
        return super().read_loc(s, loc)

    def field_of(self, v, name, s):
        if v[0] == "over":
            for k, x in v[2]:
                if k == name:
                    return x
            return self.field_of(v[1], name, s)
        if v[0] == "init" and s.chk.saves:
            A, L = self.generic(s, ("fld", v[1], name))
            for a, R in s.chk.saves:
                if a == A:
                    return ("orig", R)
        return super().field_of(v, name, s)

    def keep_fact(self, k):
        return k[0] in ("err", "alloc", "ret") or (k[0] == "==" and k[1][0] in ("err",))

    # ---- tasks
    def task_write(self, s, loc, n):
        b = loc
        while b[0] in ("fld", "elem"):
            b = b[1]
        tid, home, caps, parallel = self.intask[-1]
        if b[0] != "var":
            return
        if b[2] != home and not self.outer(b[2], home):
            return          # a local of the task or of something it calls
        if b[2] == home and b[1] in caps["own"]:
            return
        self.task_info[tid]["writes"].add(loc)
        if parallel:
            self.ev("task", False, n, "parallel iterations write %s, which they share, without synchronization" % self.varname(b[1]))

    def outer(self, fr, home):
        # frames that exist where the lambda was created
        return fr in self.intask[-1][2]["frames"]

    def varname(self, d):
        for x in walk_fn(self.root):
            if x["k"] == "decl":
                for v in x["v"]:
                    if v["d"] == d:
                        return "'%s'" % v["n"]
        return "a variable"

    def task_ctx_use(self, s, ctx, n, mutates):
        """The evaluator's own context is used by the current code."""
        if not self.is_ctx(ctx):
            return
        if self.intask:
            tid = self.intask[-1][0]
            self.task_info[tid]["reads"] = True
            if mutates:
                self.ev("task", False, n, "a task changes the context of the thread that started it")
        elif mutates:
            for t in s.chk.tasks:
                if t[1]:
                    self.ev("task", False, n, "the context is changed while a task that reads it may be running")

    def run_task(self, s, n, lam, args, frame, parallel):
        if lam is None or lam[0] != "lam" or lam[1] not in self.lambdas:
            self.undec(n, "task body not resolved")
            return [s], None
        node = self.lambdas[lam[1]][0]
        own = set()
        for c in node["caps"]:
            if "d" in c and not c.get("ref"):
                own.add(c["d"])
        frames = {fr[1] for fr in self.frames}
        tid = ("task", n["id"])
        self.task_info[tid] = {"reads": False, "writes": set(), "caps": any(c.get("ref") for c in node["caps"])}
        self.intask.append((tid, lam[2], {"own": own, "frames": frames}, parallel))
        err0 = s.chk.err
        outs = self.call_lambda(s, {"id": n["id"], "l": n["l"]}, self.lambdas[lam[1]], args, frame, None, lam)
        self.intask.pop()
        res = []
        for s2, _ in outs:
            s2 = s2.copy()
            if s2.chk.err == "sync" and err0 is None:
                s2.chk = s2.chk._replace(err="async")
            res.append(s2)
        return res, tid

    def group_key(self, s):
        return frozenset((k, v) for k, v in s.store.items() if v[0] == "err")

    def declare(self, v, s, frame):
        i = strip(v.get("init")) if v.get("init") else None
        if i is not None and i.get("cv") == 0 and v["t"].replace("const ", "").strip() in ("unsigned long", "std::size_t", "size_t", "std::uint64_t"):
            s = s.copy()
            loc = ("var", v["d"], frame)
            self.kill(s, loc)
            s.store[loc] = ZERO_ID
            return [s]
        return super().declare(v, s, frame)

    def covered_ids(self, s, v):
        """The symbols whose ids v is known to be no less than, or None."""
        if v == C(0):
            return frozenset()
        if v[0] == "maxid":
            return v[1]
        g = self.id_of(s, v)
        return frozenset([g]) if g is not None else None

    def write(self, s, loc, val, n, frame, init=False):
        if not init and loc[0] == "var":
            l = self.resolve_loc(s, loc)
            old = s.store.get(l)
            if old is not None:
                a, b = self.covered_ids(s, val), self.covered_ids(s, old)
                if a and b is not None and (s.facts.get(("<", old, val)) is True or s.facts.get(("<", val, old)) is False):
                    val = ("maxid", a | b)
        return super().write(s, loc, val, n, frame, init)

    def norm(self, v):
        if v == ZERO_ID:
            v = C(0)
        elif len(v) == 3 and v[0] in self.CMP:
            v = (v[0],) + tuple(C(0) if x == ZERO_ID else x for x in v[1:])
        return super().norm(v)

    def assume(self, s, v):
        if v[0] in ("<", ">", "<=", ">="):
            a, b = v[1:]
            if self.covered_ids(s, a) is not None and self.covered_ids(s, b) is not None:
                # The larger of two ids covers both.
                t, f = s.copy(), s.copy()
                x, pol = super().norm((v[0], a, b))
                if x[0] == "<":
                    t.facts[x], f.facts[x] = pol, not pol
                    for st in (t, f):
                        lo, hi = (x[1], x[2]) if st.facts[x] else (x[2], x[1])
                        if hi[0] == "maxid":
                            m = ("maxid", self.covered_ids(st, lo) | hi[1])
                            for k, val in list(st.store.items()):
                                if val == hi and k[0] == "var":
                                    st.store[k] = m
                    return [t], [f]
        return super().assume(s, v)

    def keep_in_loop(self, loc, s):
        v = s.store.get(loc)
        if v is not None and loc[0] == "var" and self.id_of(s, v) is not None:
            # The id of an element of an earlier iteration says nothing about the others.
            s.store[loc] = ("lastid", loc)
            return True
        return v is not None and (v[0] in ("err", "maxid", "lastid") or v == C(0)) and loc[0] == "var"

    # ---- children
    def is_child(self, n, fn):
        q = n.get("fn", "")
        name = q.split("::")[-1]
        if q == "slinky::evaluate":
            return True
        if not q.startswith(EV + "::") or not name.startswith("eval"):
            return False
        pts = n.get("pt", [])
        if not pts:
            return False
        p = pts[0]
        if any(p == x for x in ("const slinky::expr &", "const slinky::stmt &", "const slinky::interval_expr &")):
            # helpers that bind a symbol first are analysed, not summarised
            f = fn or self.prog.callee(n.get("fid"))
            if f is not None and f.body and any(x["k"] == "call" and x.get("fn", "") == CTX_T + "::set" for x in walk(f.body)):
                return False
            return True
        f = self.prog.callee(n.get("fid"))
        return f is not None and f in self.rootset and f is not self.root and len(pts) == 1 and not self.same_node_helper(f)

    def same_node_helper(self, f):
        return f.params[0]["t"] == self.root.params[0]["t"]

    def child_kind(self, n):
        p = n["pt"][0]
        if "stmt" in p.split("::")[-1].split(" ")[0] or p == "const slinky::stmt &":
            return "stmt"
        rec = self.prog.records.get(p.replace("const ", "").replace(" *", "").replace(" &", ""))
        if rec and any("stmt_node" in b for b in rec["bases"]):
            return "stmt"
        return "expr"

    def grow(self, s, n, ctx):
        s = s.copy()
        s.chk = s.chk._replace(slots=frozenset())
        return s

    def child(self, s, n, obj, args, frame, target=False):
        kind = "stmt" if target else self.child_kind(n)
        ctx = None
        if n.get("fn") == "slinky::evaluate" and len(args) > 1:
            ctx = self.resolve_loc(s, args[1]) if self.is_loc(args[1]) else None
        elif n.get("fn", "").startswith(EV):
            ctx = ("fld", self.this_of(), "context")
        if ctx is not None:
            self.task_ctx_use(s, ctx, n, True)
            if self.intask and ctx[0] == "var":
                b = ctx
                tid, home, caps, parallel = self.intask[-1]
                if b[2] == home and b[1] not in caps["own"] or (b[2] != home and self.outer(b[2], home)):
                    if parallel:
                        self.ev("task", False, n, "parallel iterations share one context")
                    else:
                        self.task_info[tid]["writes"].add(("ctxvar", b))
        s = self.grow(s, n, ctx)
        if kind == "expr":
            t = ("ret", n["id"])
            self.kill_facts(s, t)
            if args and self.is_loc(args[0]):
                self.child_src[t] = self.resolve_loc(s, args[0])
            return [(s, t)]
        inlam = any(isinstance(fr[0], object) and getattr(fr[0], "q", "").endswith("::lambda") for fr in self.frames)
        if s.chk.err == "sync" and not inlam:
            self.ev("status", False, n, "another statement is evaluated after one failed")
        elif not self.intask:
            self.ev("status", True, n, "statement evaluated only while none has failed")
        outs = []
        for s1 in self.free_fork(s):
            a, b = s1, s1.copy()
            t = ("err", n["id"])
            self.kill_facts(b, t)
            b.facts[t] = True
            b.chk = b.chk._replace(err=s.chk.err or ("sync" if not inlam else "async"))
            outs += [(a, C(0)), (b, t)]
        return outs

    def this_of(self):
        for fr in reversed(self.frames):
            t = fr[2]
            if t and t[0] == "this":
                return t
        return ("this", EV)

    def free_fork(self, s):
        """A child statement may free an escaped live allocation early, nulling the field that holds it."""
        outs = [s]
        for k, v in list(s.store.items()):
            if v[0] == "alloc" and v in s.chk.live and k[0] == "fld" and k[1][0] == "var":
                s2 = s.copy()
                s2.store[k] = ("null",)
                s2.chk = s2.chk._replace(live=s2.chk.live - {v}, freed=s2.chk.freed | {v})
                outs.append(s2)
        return outs

    def rvv(self, s, a):
        return self.read_loc(s, a) if self.is_loc(a) else a

    def hook_construct(self, s, n, args, frame):
        t = n.get("rec", n["t"])
        if t == "slinky::unreachable":
            return []
        if t.startswith("std::atomic<") and len(args) == 1:
            return [(s, self.rvv(s, args[0]))]
        if ("std::function<" in t or "function_ref" in t) and args:
            v = self.rvv(s, args[0])
            return [(s, v if v[0] in ("lam", "null") else ("fnobj", n["id"]))]
        return None

    def hook_call(self, s, n, fn, obj, args, frame):
        q = n.get("fn", "")
        name = q.split("::")[-1]
        rec = n.get("rec", "")
        op = n.get("op")
        if q in ("std::abort", "abort", "exit", "std::exit", "std::terminate"):
            return []
        if self.is_child(n, fn):
            return self.child(s, n, obj, args, frame)
        if q == "std::max<unsigned long>" or (name.startswith("max") and q.startswith("std::max")):
            m = self.max_of(s, args)
            if m is not None:
                return [(s, m)]
        # The context.
        if rec == CTX_T and obj is not None:
            ctx = self.resolve_loc(s, obj) if self.is_loc(obj) else obj
            if op == "=":
                if args and self.is_loc(args[0]):
                    self.task_ctx_use(s, self.resolve_loc(s, args[0]), n, False)
                return [(s, obj)]
            sym = self.symterm(s, args[0]) if args else None
            if name == "set":
                return self.bind(s, sym, self.rvv(s, args[1]), n, ctx)
            if name in ("lookup", "lookup_buffer") or (op == "[]" and n.get("cm")):
                self.task_ctx_use(s, ctx, n, False)
                g, L = self.generic(s, sym)
                cur = next((e for e in s.chk.dirty if e[0] == ("bind", g)), None)
                if cur is not None and cur[3] is not None and self.is_ctx(ctx):
                    return [(s, cur[3])]
                # A fourth element tells apart values looked up while the binding may differ from the original one.
                return [(s, ("lookup", ctx, sym) if cur is None else ("lookup", ctx, sym, "changed"))]
            if op == "[]":
                s = self.grow(s, n, ctx)
                slot = ("slot", n["id"], ctx)
                s.chk = s.chk._replace(slots=s.chk.slots | {slot}, reserved=s.chk.reserved | {self.generic(s, sym)[0]})
                return [(s, ("elem", slot, sym))]
            if name == "reserve":
                self.task_ctx_use(s, ctx, n, True)
                return [(self.reserve(s, n, args, ctx), ("void",))]
            if name == "size":
                self.task_ctx_use(s, ctx, n, False)
                return [(s, ("ctxsize", ctx))]
        if q.startswith("__builtin_alloca") and args:
            a = args[0]
            cnt = a
            if a[0] == "bin" and a[1] == "*":
                cnt = a[2] if a[3][0] == "c" else a[3] if a[2][0] == "c" else a
            return [(s, ("alloca", n["id"], cnt))]
        if name in ("copy_small_n", "copy_n") and len(args) == 3:
            src, cnt, dst = (self.rvv(s, a) for a in args)
            for v, w in ((src, "source"), (dst, "destination")):
                lim = None
                if v[0] == "alloca":
                    lim = v[2]
                elif v[0] == "init" and v[1][0] == "fld" and v[1][2] == "dims" and self.shared(v[1]):
                    lim = s.store.get(("fld", v[1][1], "rank"), ("init", ("fld", v[1][1], "rank")))
                if lim is not None:
                    self.prove_below(s, n, cnt, lim, "number of dimensions copied", "the %s's size" % w, weak=True)
            return [(self.copy_n(s, n, src, cnt, dst), ("void",))]
        # Containers.
        if op == "=" and obj is not None and self.is_loc(obj) and args and fn is None:
            l = self.resolve_loc(s, obj)
            v = self.rvv(s, args[0])
            if v[0] == "agg" and l[0] in ("elem", "fld", "var"):
                s = self.write(s, l, v, n, frame)
                for name, x in v[1]:
                    s = self.write(s, ("fld", l, name), x, n, frame)
                return [(s, l)]
            if self.shared(l):
                return [(self.write(s, l, self.rvv(s, args[0]), n, frame), l)]
        if rec.startswith("std::vector<") or rec.startswith("slinky::span<"):
            if op == "[]" or name in ("front", "back", "data"):
                l = self.resolve_loc(s, obj) if self.is_loc(obj) else ("deref", obj)
                idx = self.rvv(s, args[0]) if op == "[]" else (C(0) if name == "front" else ("last",))
                if op == "[]" and idx[0] != "c" and rec.startswith("std::vector<"):
                    self.prove_below(s, {"l": n["l"], "i": n["args"][-1]}, idx, ("size", l), "element %s" % show(n["args"][-1]), "the list's size")
                return [(s, ("elem", l, idx))]
            if name == "size":
                l = self.resolve_loc(s, obj) if self.is_loc(obj) else ("deref", obj)
                return [(s, ("size", l))]
            if name == "empty":
                l = self.resolve_loc(s, obj) if self.is_loc(obj) else ("deref", obj)
                return [(s, ("==", ("size", l), C(0)))]
        # Atomics: a shared status.
        if "std::atomic<" in rec or "std::__atomic_base<" in rec:
            l = self.resolve_loc(s, obj) if self.is_loc(obj) else None
            if l is not None:
                if name.startswith("compare_exchange"):
                    d = self.rvv(s, args[1])
                    cur = self.read_loc(s, l)
                    outs = []
                    exp = self.rvv(s, args[0])
                    t, f = self.assume(s, ("==", cur, exp))
                    for x in t:
                        x = x.copy()
                        x.store[l] = d
                        outs.append((x, TRUE))
                    for x in f:
                        outs.append((x, FALSE))
                    if exp != C(0):
                        self.ev("status", False, n, "the first failure is overwritten by a later one or by success")
                    # Another thread may have stored a failure first.
                    o = s.copy()
                    o.store[l] = ("err", "other")
                    o.facts[("err", "other")] = True
                    o.chk = o.chk._replace(err=o.chk.err or "async")
                    outs.append((o, FALSE))
                    return outs
                if op == "=" or name in ("store", "exchange"):
                    x = s.copy()
                    v = self.rvv(s, args[0])
                    if self.intask and self.intask[-1][3]:
                        if self.decide(s, v) is not True:
                            self.ev("status", False, n, "a later success overwrites an earlier failure in the shared status")
                    x.store[l] = v
                    return [(x, v)]
                if name == "load" or name.startswith("operator "):
                    return [(s, self.read_loc(s, l))]
        # Callbacks of the configuration.
        if op == "()" and rec.startswith("std::function<"):
            f = self.fieldname(s, obj)
            if f is None:
                f = self.fn_member(n)
            return self.callback(s, n, f, args, frame)
        if name == "operator bool" and rec.startswith("std::function<"):
            return [(s, ("has", self.fieldname(s, obj) or "?"))]
        # The thread pool.
        if q.startswith("slinky::thread_pool") and name in ("enqueue", "parallel_for", "wait_for", "atomic_call"):
            return self.pool_call(s, n, name, args, frame)
        if name == "get" and "ref_count<" in rec:
            return None
        return None

    def copy_n(self, s, n, src, cnt, dst):
        s = s.copy()
        S, D = ("elem", ("deref", src), ("*",)), ("elem", ("deref", dst), ("*",))
        sh = [v[0] == "init" and self.shared(v[1]) for v in (src, dst)]
        text = (0, repr(canon(cnt)))
        if sh[1]:
            R = ("buf", D)
            saved = next((o for a, o in s.chk.saves if a == S), None)
            if saved == D:
                s.chk = s.chk._replace(dirty=frozenset(e for e in s.chk.dirty if e[0] != R and not self.below(e[0][1], D)))
            else:
                s.chk = s.chk._replace(dirty=frozenset(e for e in s.chk.dirty if e[0] != R) | {(R, text, None, None)})
        elif sh[0] and not any(e[0][0] == "buf" and (e[0][1] == S or self.below(e[0][1], S)) for e in s.chk.dirty):
            s.chk = s.chk._replace(saves=s.chk.saves | {(D, S)})
        return s

    def fn_member(self, n):
        for x in walk(n["args"][0] if n["args"] else n.get("obj")):
            if x["k"] == "mem":
                return x["n"]
        return None

    def fieldname(self, s, obj):
        if obj is None or not self.is_loc(obj):
            return None
        l = self.resolve_loc(s, obj)
        return l[2] if l[0] == "fld" else None

    def allocfield(self, s, loc):
        return self.shared(loc)

    def symterm(self, s, a):
        v = self.rvv(s, a)
        return v

    def reserve(self, s, n, args, ctx):
        """Which symbols have a slot after context.reserve(x)?"""
        v = self.rvv(s, args[0])
        s = self.grow(s, n, ctx)
        if not self.is_ctx(ctx):
            return s
        got = set()
        b = None
        if v[0] in ("+", "bin"):
            x, y = v[-2:]
            b = y if x == C(1) else x if y == C(1) else None
        if b is not None:
            g = self.id_of(s, b)
            if g is not None:
                got.add(g)
            elif b[0] == "maxid":
                got |= {x[1] if x[0] == "next" else x for x in b[1]}
            elif b[0] not in ("c", "lastid"):
                self.undec(n, "amount reserved not understood")
                got.add(("all",))
        elif v[0] == "maxid":
            got |= {x[1] for x in v[1] if x[0] == "next"}
        elif v[0] in ("ctxsize", "c", "maxid", "lastid") or self.id_of(s, v) is not None:
            pass
        else:
            self.undec(n, "amount reserved not understood")
            got.add(("all",))
        s.chk = s.chk._replace(reserved=s.chk.reserved | got)
        return s

    def id_of(self, s, b):
        """The (generic) symbol whose id b is, or None."""
        if b[0] == "init" and b[1][0] == "fld" and b[1][2] == "id":
            return self.generic(s, ("init", b[1][1]))[0]
        if b[0] == "fldv" and b[2] == "id":
            return self.generic(s, b[1])[0]
        return None

    def max_of(self, s, args):
        vs = [self.rvv(s, a) for a in args]
        syms = set()
        for v in vs:
            g = self.id_of(s, v)
            if v[0] == "maxid":
                syms |= set(v[1])
            elif g is not None:
                syms.add(g)
            elif v[0] == "bin" and v[1] == "+" and C(1) in v[2:]:
                # The maximum of ids plus one, used as a size.
                w = v[2] if v[3] == C(1) else v[3]
                g = self.id_of(s, w)
                if g is None:
                    return None
                syms.add(("next", g))
            elif v[0] != "c":
                return None
        return ("maxid", frozenset(syms)) if syms else None

    def callback(self, s, n, f, args, frame):
        if f in ("target", "impl"):
            if self.root_kind() == "stmt":
                return self.child(s, n, None, args, frame, target=True)
            t = ("ret", n["id"])
            s = self.grow(s, n, None)
            self.kill_facts(s, t)
            return [(s, t)]
        s = s.copy()
        if f == "allocate":
            a = ("alloc", n["id"])
            b = s.copy()
            self.kill_facts(s, a)
            s.facts[a] = True
            s.chk = s.chk._replace(live=s.chk.live | {a}, freed=s.chk.freed - {a}, events=s.chk.events | {f})
            # allocate assigns the buffer's base.
            if len(args) > 1 and args[1][0] == "addr":
                for st in (s, b):
                    l = ("fld", self.resolve_loc(st, args[1][1]), "base")
                    self.kill_facts(st, ("out", n["id"], "base"))
                    st.store[l] = ("out", n["id"], "base")
            return [(s, a), (b, ("null",))]
        if f == "free":
            v = self.rvv(s, args[2]) if len(args) > 2 else None
            if v is not None and v[0] == "alloc":
                if v in s.chk.freed:
                    self.ev("alloc", False, n, "an allocation is freed twice")
                else:
                    self.ev("alloc", True, n, "a live allocation is freed")
                s.chk = s.chk._replace(live=s.chk.live - {v}, freed=s.chk.freed | {v})
            elif v == ("null",):
                s.chk = s.chk._replace(events=s.chk.events | {"nullfree"})
                self.ev("alloc", False, n, "free is called although nothing is allocated (already freed, or on the stack)")
            elif v is not None and v[0] == "init" and self.allocfield(s, v[1]):
                s.chk = s.chk._replace(events=s.chk.events | {("freed", v[1])})
            else:
                self.ev("alloc", False, n, "free is called with something that is not the allocation")
            return [(s, ("void",))]
        s.chk = s.chk._replace(events=s.chk.events | {f})
        t = ("ret", n["id"])
        self.kill_facts(s, t)
        return [(s, t)]

    def root_kind(self):
        return self.kind

    def pool_call(self, s, n, name, args, frame):
        lam = None
        for a in args:
            v = self.rvv(s, a)
            if v[0] == "lam":
                lam = v
        if name == "parallel_for":
            self.pfors.append((self.root, self.rvv(s, args[0]), s, n))
            outs, tid = self.run_task(s, n, lam, (("ret", n["id"], "i"),), frame, True)
            # Zero or more iterations by other workers before or after: join with the untouched state.
            res = []
            for x in outs:
                res.append((x, ("void",)))
            self.ev("task", True, n, "parallel_for runs its iterations and waits for them")
            return res
        if name == "enqueue":
            outs, tid = self.run_task(s, n, lam, (), frame, False)
            res = []
            for x in outs:
                x = x.copy()
                if tid:
                    ti = self.task_info[tid]
                    x.chk = x.chk._replace(tasks=x.chk.tasks | {(tid, ti["reads"], frozenset(ti["writes"]))})
                res.append((x, tid or ("ret", n["id"])))
            return res
        if name == "wait_for":
            v = self.rvv(s, args[0])
            # &*task, task.get(), ...
            s = s.copy()
            hit = {t for t in s.chk.tasks if mentions(v, t[0])}
            if hit:
                self.ev("task", True, n, "task awaited")
            s.chk = s.chk._replace(tasks=s.chk.tasks - hit)
            return [(s, ("void",))]
        if name == "atomic_call":
            return [(s, ("void",))]
        return None

    def pure(self, f, n):
        q = n.get("fn", "")
        if n.get("op") in ("->", "*") and "ref_count" in n.get("rec", ""):
            return True
        if q in ("std::max", "std::min"):
            return True
        if n["k"] == "call" and n.get("cm") and q.startswith("slinky::") and not n.get("virt"):
            return not q.startswith(EV)
        if q.split("<")[0] in self.DIVS:
            return True
        if q.split("::")[-1] in ("as_variable", "as_closure", "as_constant"):
            return True
        return False

    def inline_ok(self, f, n):
        r = f.rec or ""
        if n is not None and n.get("obj") is not None and f.n in ("init_strides", "size_bytes", "elem_count", "validate_buffer"):
            return False
        if "ref_count<" in r or "std::" in r:
            return False
        if f.q.split("<")[0] in self.DIVS:
            return False
        if f.n in ("as_variable", "as_closure", "to_string", "validate_buffer", "dump_context_for_expr", "allocate"):
            return False
        if r.startswith("slinky::thread_pool"):
            return False
        return True

    def run_root(self, f, kind):
        self.root = f
        self.kind = kind
        self.loops, self.intask = [], []
        return self.run(f, State(chk=CHK0))


def mentions_tag(t, tag):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == tag:
        return True
    return any(mentions_tag(x, tag) for x in t)


def mentions_loop(t, nid):
    if not isinstance(t, tuple):
        return False
    if t[:2] == ("loop", nid) and len(t) == 3:
        return True
    return any(mentions_loop(x, nid) for x in t)


def load():
    prog = Program(["runtime/evaluate.cc", "runtime/buffer.cc", "runtime/pipeline.cc"])
    return prog


def roots(prog):
    out = []
    for f in prog.functions:
        if not f.q.startswith(EV + "::") or f.dep or not f.body or not f.params:
            continue
        p = f.params[0]["t"]
        if not p.endswith("*"):
            continue
        t = p.replace("const ", "").replace(" *", "").replace("*", "").strip()
        rec = prog.records.get(t)
        if not rec:
            continue
        bases = prog.bases_closure(t)
        kind = "stmt" if any("stmt_node_type" in b for b in bases) else "expr" if any("expr_node_type" in b for b in bases) else None
        if kind and len(f.params) == 1 and f.n == "eval":
            out.append((f, kind))
    if len(out) < 15:
        raise AnchorMissing("found only %d evaluator entry points" % len(out))
    return out


def analyse(prog):
    it = EvInterp(prog)
    rs = roots(prog)
    it.rootset = {f for f, k in rs}
    res = []
    for f, kind in rs:
        res.append((f, kind, it.run_root(f, kind)))
    return it, res
