"""Work accounting of the thread pool: every item of a task is handed out once, counted once, and no item is skipped."""
from .program import AnalysisBroken, AnchorMissing, walk_fn, walk, show
from .flow import Interp, State, C, TRUE, FALSE
from .poly import Poly, from_term, redo_div
from .threads import TASK, POOL, Model

BODY_T = "std::function<void (unsigned long)>"


def is_body_call(n):
    return n["k"] == "call" and n.get("op") == "()" and n.get("rec", "") == BODY_T


class OnceInterp(Interp):
    """chk = (ticket, unmatched): the ticket value drawn last and whether it was used; body calls not yet counted."""
    INLINE_NODES = 900

    def __init__(self, prog, model):
        super().__init__(prog)
        self.m = model
        self.events = []
        self.acc = None
        self.sub = None          # function whose results are accumulated
        self.todo_args = []
        self.shard_writes = []
        self.loopinfo = {}
        self.enqueues = []
        self.bodies = []

    def ev(self, ok, n, msg, file=None):
        f = next((fr[0] for fr in reversed(self.frames) if hasattr(fr[0], "file")), None)
        e = (ok, f.file if f else file or "?", n.get("l", 0) if n else 0, msg, f.q if f else "?")
        if e not in self.events:
            self.events.append(e)

    def keep_fact(self, k):
        return True

    def hook_call(self, s, n, fn, obj, args, frame):
        name = n.get("fn", "").split("::")[-1]
        rec = n.get("rec", "")
        op = n.get("op")
        if "atomic" in rec and obj is not None and self.is_loc(obj):
            loc = self.resolve_loc(s, obj)
            fld = loc[2] if loc[0] == "fld" else None
            if fld in self.m.todo:
                if op in ("-=", "--") or name == "fetch_sub":
                    s = s.copy()
                    v = self.rv_(s, args[0]) if args and op != "--" else C(1)
                    t, used, un, subs, nt = s.chk
                    s.chk = (t, used, un, subs, nt + 1)
                    self.todo_args.append((n, v))
                    return [(s, ("left", n["id"]))]
                return [(s, ("todo", n["id"]))]
            if (op == "++" or name == "fetch_add") and loc[0] == "fld" and self.is_counter(loc):
                # A ticket is drawn.
                if op == "++":
                    post = len(n["args"]) == 2 or len(n.get("pt", [])) == 1
                    step = C(1)
                else:
                    post = True
                    step = self.rv_(s, args[0])
                if step != C(1):
                    self.ev(False, n, "the iteration counter advances by something other than one")
                t = ("ticket", n["id"])
                s = s.copy()
                self.kill_facts(s, t)
                _, used, un, subs, nt = s.chk
                s.chk = (t if post else ("pre", t), False, un, subs, nt)
                return [(s, t if post else ("bin", "+", t, C(1)))]
            if op == "=" or name == "store":
                self.shard_writes.append((fld, self.rv_(s, args[0]), n, dict(s.store)))
                return [(s, ("void",))]
        if is_body_call(n):
            return self.body(s, n, args)
        if fn is not None and self.sub is not None and fn is self.sub:
            s = s.copy()
            t, used, un, subs, nt = s.chk
            s.chk = (t, used, un, min(subs + 1, 3), nt)
            r = ("subcount", n["id"])
            return [(s, r)]
        return None

    def keep_in_loop(self, loc, s):
        return s.chk[0] is not None and s.store[loc] == s.chk[0]

    def rv_(self, s, a):
        return self.read_loc(s, a) if self.is_loc(a) else a

    def is_counter(self, loc):
        return loc[2] not in self.m.todo and "max_workers" not in loc[2]

    def body(self, s, n, args):
        idx = self.rv_(s, args[0])
        t, used, un, subs, nt = s.chk
        self.bodies.append((n, idx))
        if self.mode == "task":
            if idx != t or t is None:
                self.ev(False, n, "task body is called with an index that is not the one just drawn from the shared counter")
            elif used:
                self.ev(False, n, "task body is called twice with the same index")
            else:
                self.ev(True, n, "task body called with a freshly drawn index")
            # Bounded by the shard's end.
            bound = any(k[0] == "<" and k[1] == idx and v for k, v in s.facts.items())
            self.ev(bound, n, "index is %s below the end of the shard before the body runs" % ("checked to be" if bound else "not checked to be"))
        s = s.copy()
        s.chk = (t, True, min(un + 1, 3), subs, nt)
        return [(s, ("void",))]

    def hook_write(self, s, loc, val, n, frame):
        if self.mode == "task" and loc[0] == "var" and self.acc and loc[1] in self.acc and n is not None and n["k"] in ("un", "bin"):
            t, used, un, subs, nt = s.chk
            if val[0] == "bin" and val[1] == "+":
                if val[3] == C(1) or val[2] == C(1):
                    s = s.copy()
                    s.chk = (t, used, un - 1, subs, nt)
                elif any(x[0] == "subcount" for x in (val[2], val[3])):
                    s = s.copy()
                    s.chk = (t, used, un, subs - 1, nt)
            elif val[0] == "c":
                s = s.copy()
                s.chk = (t, used, un - val[1] if val[1] else un, subs, nt)
            return s
        if loc[0] == "fld" and n is not None and n["k"] == "bin":
            self.shard_writes.append((loc[2], val, n, dict(s.store)))
        return None

    def binop(self, op, a, b):
        return super().binop(op, a, b)


def returned_vars(f):
    out = set()
    for n in walk_fn(f, False):
        if n["k"] == "return" and n.get("e"):
            for x in walk(n["e"]):
                if x["k"] == "ref" and x["dk"] == "var":
                    out.add(x["d"])
    return out


def affine_loops(f, pred):
    """For loops `for (v = lo; v < hi; ++v)` whose body satisfies pred(body, v): [(lo node, hi node, loop)]."""
    out, other = [], []
    for n in walk_fn(f, False):
        if n["k"] not in ("for", "while", "do", "rfor"):
            continue
        calls = [x for x in walk(n["body"]) if pred(x)]
        if not calls:
            continue
        ok = False
        if n["k"] == "for" and n.get("init") and n["init"]["k"] == "decl" and len(n["init"]["v"]) == 1 and n.get("c") and n.get("inc"):
            v = n["init"]["v"][0]
            c = n["c"]
            inc = n["inc"]
            incok = (inc["k"] == "un" and inc["op"] == "++" and inc["e"]["k"] == "ref" and inc["e"]["d"] == v["d"]) or \
                (inc["k"] == "bin" and inc["op"] == "+=" and inc["L"].get("d") == v["d"] and inc["R"].get("cv") == 1)
            jumps = any(x["k"] in ("break", "continue", "return") for x in walk(n["body"]))
            if incok and not jumps and c["k"] == "bin" and c["op"] in ("<", "!=") and c["L"]["k"] == "ref" and c["L"]["d"] == v["d"]:
                out.append((v, v["init"], c["R"], n, calls))
                ok = True
        if not ok:
            other.append(n)
    return out, other


def canon(n, env):
    """Renders an integer expression with local constants expanded, to compare loop bounds."""
    if n is None:
        return "?"
    if n["k"] == "ref":
        if n["d"] in env and env[n["d"]] is not None:
            e = env[n["d"]]
            return canon(e, {k: v for k, v in env.items() if k != n["d"]})
        return "v:" + n["n"]
    if n["k"] == "mem":
        return canon(n["b"], env) + "." + n["n"]
    if n["k"] == "this":
        return "this"
    if "cv" in n and n["k"] == "lit":
        return str(n["cv"])
    if n["k"] == "bin":
        return "(%s%s%s)" % (canon(n["L"], env), n["op"], canon(n["R"], env))
    if n["k"] == "cast":
        return canon(n["e"], env)
    return show(n)


def analyse_once(prog, res):
    m = Model(prog)
    runners = [f for f in prog.functions if f.q.startswith(TASK + "::") and any(is_body_call(n) for n in walk_fn(f))]
    if not runners:
        raise AnchorMissing("no function of the task class calls the task body")
    evs = []
    for f in runners:
        it = OnceInterp(prog, m)
        it.mode = "task"
        it.acc = returned_vars(f)
        st = State(chk=(None, True, 0, 0, 0))
        outs = it.run(f, st)
        evs += it.events
        if it.acc:
            bad = {s.chk[2] for s, v in outs} - {0}
            (res.bad if bad else lambda *a, **k: res.ok("%s: executed items and counted items agree on every path" % f.q))(
                *(("count:" + f.q, f.file, f.line, "%s can return a count that differs from the number of items it executed" % f.q) if bad else ()))
        else:
            res.note("%s: the number of executed items is not accumulated in a returned local; accounting not decided" % f.q)
    sub = runners[0]
    # Callers that add up the counts and decrement the outstanding counter.
    summers = []
    for f in prog.functions:
        if f.q.startswith(TASK + "::") and any(n["k"] == "call" and n.get("fid") == sub.fid for n in walk_fn(f)):
            summers.append(f)
    if not summers and sub not in [f for f in runners if any(True for n in walk_fn(f) if n["k"] == "mem" and n["n"] in m.todo)]:
        raise AnchorMissing("no caller of %s found" % sub.q)
    for f in summers:
        it = OnceInterp(prog, m)
        it.mode = "task"
        it.sub = sub
        it.acc = set()
        for n in walk_fn(f):
            if n["k"] == "call" and "atomic" in n.get("rec", "") and (n.get("op") == "-=" or n.get("fn", "").endswith("fetch_sub")):
                for x in walk(n["args"][1 if n.get("op") and not n.get("obj") else 0]):
                    if x["k"] == "ref":
                        it.acc.add(x["d"])
        st = State(chk=(None, True, 0, 0, 0))
        outs = it.run(f, st)
        evs += it.events
        if not it.todo_args:
            res.bad("todo:" + f.q, f.file, f.line, "%s executes items but never decrements the outstanding-item counter" % f.q)
            continue
        if it.acc:
            bad = [1 for s, v in outs if s.chk[3] != 0]
            if bad:
                res.bad("sum:" + f.q, f.file, f.line, "%s: the count of executed items returned for a shard is dropped or added twice on some path" % f.q)
            else:
                res.ok("%s: every shard's count is added exactly once" % f.q)
        multi = [1 for s, v in outs if s.chk[4] > 1]
        if multi:
            res.bad("todo2:" + f.q, f.file, f.line, "%s decrements the outstanding-item counter more than once" % f.q)
        # A path that executed items must decrement the counter unless it is known that nothing was executed.
        for s, v in outs:
            if s.chk[4] == 0:
                zero = any((k[0] == "<" and k[1] == C(0) and not val) or
                           (not val and k[0] in ("loop", "init", "bin", "subcount", "phi")) or (k[0] == "c") for k, val in s.facts.items())
                if not zero:
                    res.bad("todo0:" + f.q, f.file, f.line, "%s can return without decrementing the outstanding-item counter although items ran" % f.q)
                    break
        else:
            res.ok("%s: outstanding-item counter decremented once unless no item ran" % f.q)
        # Every shard is visited: the loops that work on shards cover [0, count).
        loops, other = affine_loops(f, lambda x: x["k"] == "call" and x.get("fid") == sub.fid)
        env = {}
        for n in walk_fn(f):
            if n["k"] == "decl":
                for v in n["v"]:
                    if "const" in v["t"]:
                        env[v["d"]] = v.get("init")
        if loops and not other:
            edges = {}
            direct = True
            for v, lo, hi, n, calls in loops:
                for c in calls:
                    idxs = [x for x in walk(c["obj"]) if x["k"] == "idx"] if c.get("obj") else []
                    if not idxs or not (idxs[0]["i"]["k"] == "ref" and idxs[0]["i"]["d"] == v["d"]):
                        direct = False
                edges.setdefault(canon(lo, env), set()).add(canon(hi, env))
            seen, work = {"0"}, ["0"]
            # The union of [lo, hi) covers [0, N) when the intervals chain from 0.
            while work:
                for h in edges.get(work.pop(), ()):
                    if h not in seen:
                        seen.add(h)
                        work.append(h)
            ends = {canon(hi, env) for _, _, hi, _, _ in loops}
            cnt = [e for e in ends if e.endswith("shard_count_")] or [e for e in ends if e.startswith("this.")]
            if not direct:
                # e.g. shards[(first + i) % count] for i in [0, count)
                if all(canon(lo, env) == "0" for _, lo, _, _, _ in loops) and cnt:
                    res.note("%s: shards visited through a computed index; full coverage not decided" % f.q)
                else:
                    res.bad("cover:" + f.q, f.file, loops[0][3]["l"], "%s: some shards may never be worked on" % f.q)
            elif not cnt or not any(c in seen for c in cnt):
                res.bad("cover:" + f.q, f.file, loops[0][3]["l"],
                        "%s: the shard loops cover %s, which does not reach from shard 0 to the shard count" % (
                            f.q, ", ".join("[%s, %s)" % (canon(lo, env), canon(hi, env)) for _, lo, hi, _, _ in loops)))
            elif len(edges) > 1 and sum(len(x) for x in edges.values()) != len(loops):
                res.note("%s: duplicate shard loops" % f.q)
            else:
                res.ok("%s: shard loops cover [0, shard count)" % f.q)
        else:
            res.note("%s: shard loop shape not recognised; coverage not decided" % f.q)
    # Partition of [0, n) into shards.
    ctors = [f for f in prog.functions if f.recq == TASK and f.kind == "ctor"]
    if not ctors:
        raise AnchorMissing("task constructor not found")
    for f in ctors:
        it = OnceInterp(prog, m)
        it.mode = "ctor"
        it.run(f, State(chk=(None, True, 0, 0, 0)))
        partition(it, f, res)
        todo_init = [i for i in f.inits if i.get("f") in m.todo]
        pn = [p for p in f.params if "long" in p["t"]]
        used = set()
        for w in it.shard_writes:
            pass
        if todo_init:
            x = todo_init[0]["e"]
            names = [y["n"] for y in walk(x) if y["k"] == "ref" and y["dk"] == "parm"]
            if len(names) == 1 and all(y["k"] != "bin" for y in walk(x)):
                res.ok("%s: outstanding-item counter starts at %s" % (f.q, names[0]))
                it.n_name = names[0]
            else:
                res.bad("todoinit:" + f.q, f.file, todo_init[0]["l"], "the outstanding-item counter does not start at the number of items (%s)" % show(x))
    for ok, file, line, msg, q in evs:
        if ok:
            res.ok("%s:%d %s" % (file, line, msg))
        else:
            res.bad("ticket:%s:%s" % (q, msg), file, line, msg)
    forwarding(prog, m, res)


def has_atom_loop(p):
    return [a for a in p.atoms() if isinstance(a, tuple) and a[0] == "loop"]


def partition(it, f, res):
    """start(0) = 0, start(i + 1) = end(i), end(count - 1) = n, for the values stored per shard."""
    # The loop that fills in shards.
    loops = [n for n in walk_fn(f) if n["k"] == "for"]
    if len(loops) != 1 or not loops[0].get("init") or loops[0]["init"]["k"] != "decl":
        res.note("%s: shard set-up loop not recognised; partition not decided" % f.q)
        return
    n = loops[0]
    v = n["init"]["v"][0]
    iv_loop = ("loop", n["id"], ("var", v["d"], ("root",)))
    cond = n["c"]
    if cond["k"] != "bin" or cond["op"] not in ("<", "!="):
        res.note("%s: shard loop condition not recognised; partition not decided" % f.q)
        return
    counters = {w[0] for w in it.shard_writes if w[2]["k"] == "call"}
    ends = {w[0] for w in it.shard_writes if w[2]["k"] == "bin"}
    if len(counters) != 1 or len(ends) != 1:
        res.note("%s: shard fields not recognised; partition not decided" % f.q)
        return
    starts = [w for w in it.shard_writes if w[0] in counters]
    stops = [w for w in it.shard_writes if w[0] in ends]
    first_start, later_start = None, None
    first_end, later_end = None, None

    def mentions_loop(t):
        if isinstance(t, tuple):
            return t[0] == "loop" or any(mentions_loop(x) for x in t if isinstance(x, tuple))
        return False
    for w in starts:
        if mentions_loop(w[1]):
            later_start = w
        else:
            first_start = w
    for w in stops:
        if mentions_loop(w[1]):
            later_end = w
        else:
            first_end = w
    if not (first_start and later_start and later_end):
        res.note("%s: per-shard bounds not recognised; partition not decided" % f.q)
        return
    if from_term(first_start[1]) != Poly.const(0):
        res.bad("part0:" + f.q, f.file, first_start[2]["l"], "the first shard does not start at item 0")
    else:
        res.ok("%s: first shard starts at item 0" % f.q)
    I = iv_loop
    endp = from_term(later_end[1])
    sp = from_term(later_start[1])
    if I in sp.atoms() or any(isinstance(a, tuple) and a[0] == "div" for a in sp.atoms()):
        nxt = redo_div(sp.subst(I, Poly.atom(I) + Poly.const(1)))
        good = nxt == endp
    else:
        # A carried variable: its value at the end of an iteration must be this shard's end.
        carried = [a for a in sp.atoms() if isinstance(a, tuple) and a[0] == "loop"]
        good = None
        if sp == Poly.atom(carried[0]) if carried else False:
            d = carried[0][2][1]
            good = False
            for x in walk(n["body"]):
                if x["k"] == "bin" and x["op"] == "=" and x["L"].get("d") == d:
                    r = x["R"]
                    if r["k"] == "mem" and r["n"] in ends:
                        good = True
                    elif r["k"] == "ref":
                        # The same local that was stored as the end.
                        for y in walk(n["body"]):
                            if y["k"] == "bin" and y["op"] == "=" and y["L"]["k"] == "mem" and y["L"]["n"] in ends and \
                                    y["R"]["k"] == "ref" and y["R"]["d"] == r["d"]:
                                good = True
                    else:
                        p = None
                        for y in walk(n["body"]):
                            if y["k"] == "bin" and y["op"] == "=" and y["L"]["k"] == "mem" and y["L"]["n"] in ends:
                                good = show(y["R"]) == show(r)
    if good is None:
        res.note("%s: shard starts not recognised; partition not decided" % f.q)
    elif not good:
        res.bad("part1:" + f.q, f.file, later_start[2]["l"], "a shard does not start where the previous one ends")
    else:
        res.ok("%s: each shard starts where the previous one ends" % f.q)
    # The last shard's end.
    hi = None
    for s in [later_end]:
        hi = later_end
    cnt = it_eval_bound(it, f, cond["R"])
    if cnt is None:
        res.note("%s: shard count not recognised; last shard not decided" % f.q)
        return
    last = redo_div(endp.subst(I, cnt - Poly.const(1)))
    ns = {("init", ("var", p["d"], ("root",))) for p in f.params}
    todo = [i for i in f.inits if i.get("f") in it.m.todo]
    want = None
    if todo:
        r = [y for y in walk(todo[0]["e"]) if y["k"] == "ref"]
        if r:
            want = Poly.atom(("init", ("var", r[0]["d"], ("root",))))
    if want is None:
        return
    if last == want:
        res.ok("%s: the last shard ends at the number of items" % f.q)
    else:
        res.bad("part2:" + f.q, f.file, later_end[2]["l"], "the last shard does not end at the number of items (it ends at %s)" % show(later_end[2]["R"]))


def it_eval_bound(it, f, node):
    # The bound is a parameter or a field initialised from one.
    if node["k"] == "ref":
        return Poly.atom(("init", ("var", node["d"], ("root",))))
    if node["k"] == "mem":
        for i in f.inits:
            if i.get("f") == node["n"]:
                r = [y for y in walk(i["e"]) if y["k"] == "ref"]
                if len(r) == 1:
                    return Poly.atom(("init", ("var", r[0]["d"], ("root",))))
    return None


class ForInterp(Interp):
    """parallel_for: records, per path, what was executed."""
    INLINE_NODES = 300

    def keep_fact(self, k):
        return True

    def hook_call(self, s, n, fn, obj, args, frame):
        name = n.get("fn", "").split("::")[-1]
        rv = lambda a: self.read_loc(s, a) if self.is_loc(a) else a
        if is_body_call(n):
            s = s.copy()
            s.chk = s.chk + (("body", rv(args[0]), n["id"]),) if len(s.chk) < 6 else s.chk
            return [(s, ("void",))]
        if name == "enqueue":
            s = s.copy()
            s.chk = s.chk + (("enqueue", rv(args[0]), n["id"]),)
            return [(s, ("task", n["id"]))]
        if name == "wait_for":
            s = s.copy()
            s.chk = s.chk + (("wait", rv(args[0]), n["id"]),)
            return [(s, ("void",))]
        return None

    def pure(self, f, n):
        return n.get("op") in ("->", "*")

    def inline_ok(self, f, n):
        return "ref_count<" not in (f.rec or "")

    def widen_chk(self, chk):
        return chk[:3]


def forwarding(prog, m, res):
    f = prog.one("slinky::thread_pool::parallel_for")
    it = ForInterp(prog)
    outs = it.run(f, State(chk=()))
    nparam = next(p for p in f.params if p["t"] in ("unsigned long", "std::size_t"))
    N = ("init", ("var", nparam["d"], ("root",)))
    for s, v in outs:
        def fact(t):
            return it.decide(s, t)
        kinds = [c[0] for c in s.chk]
        if fact(("==", N, C(0))) is True:
            if kinds:
                res.bad("pf0", f.file, f.line, "parallel_for over zero items runs something")
            continue
        if "enqueue" in kinds:
            e = next(c for c in s.chk if c[0] == "enqueue")
            if e[1] != N:
                res.bad("pfn", f.file, f.line, "parallel_for enqueues a number of items other than n")
            w = [c for c in s.chk if c[0] == "wait"]
            if not w or kinds.index("wait") < kinds.index("enqueue"):
                res.bad("pfwait", f.file, f.line, "parallel_for can return without waiting for the task it enqueued")
            if "body" in kinds:
                res.bad("pfboth", f.file, f.line, "parallel_for runs items itself and also enqueues them")
            res.ok("parallel_for: enqueue(n) followed by wait_for")
            continue
        if fact(("==", N, C(1))) is True and kinds == ["body"] and s.chk[0][1] == C(0):
            res.ok("parallel_for: n == 1 runs body(0) once")
            continue
        # Serial loop: body called with the induction variable of an affine loop over [0, n).
        loops, other = affine_loops(f, is_body_call)
        ok = False
        for v2, lo, hi, n, calls in loops:
            if canon(lo, {}) == "0" and hi["k"] == "ref" and hi["d"] == nparam["d"] and len(calls) == 1 and \
                    calls[0]["args"][1]["k"] == "ref" and calls[0]["args"][1]["d"] == v2["d"]:
                ok = True
        if loops and not ok:
            res.bad("pfser", f.file, loops[0][3]["l"], "parallel_for's serial loop does not run body(i) once for each i in [0, n)")
        elif not loops and other:
            res.note("parallel_for: serial loop shape not recognised; not decided")
        elif not loops and not other:
            helper = any(x["k"] == "call" and x.get("fn", "").startswith("slinky::") for x in walk_fn(f))
            if helper and kinds:
                res.note("parallel_for: items run through a helper; serial path not decided")
            else:
                res.bad("pfnone", f.file, f.line, "parallel_for has a path for n > 0 that runs no items")
        elif ok:
            res.ok("parallel_for: serial loop covers [0, n)")
    # enqueue hands its item count to the task unchanged.
    for f in [f for f in m.roots if f.n == "enqueue"]:
        it = EnqInterp(prog)
        it.made = []
        it.run(f, State(chk=()))
        N = ("init", ("var", f.params[0]["d"], ("root",)))
        if not it.made:
            raise AnchorMissing("enqueue does not create a task")
        for n, v in it.made:
            if v == N:
                res.ok("enqueue: task created for exactly n items")
            else:
                res.bad("enqn", f.file, n["l"], "enqueue creates a task with an item count other than n (%s)" % show(n))
    # A task counts as done only when no item is outstanding.
    for f in [f for f in prog.functions if f.recq == TASK and f.n == "done" and f.body]:
        it = EnqInterp(prog)
        it.todo = m.todo
        for s, v in it.run(f, State(chk=())):
            t, _ = it.assume(s, v)
            for x in t:
                z = [k for k, val in x.facts.items() if k[0] == "todo" and val is False]
                if z:
                    res.ok("%s is true only if no item is outstanding" % f.q)
                else:
                    res.bad("done", f.file, f.line, "the task can be reported done while items are outstanding")
    # A task is dropped from the queue because "all work started" only if every shard is exhausted.
    for f in [f for f in prog.functions if f.recq == TASK and f.rt == "bool" and f.body and f.n != "done"]:
        loops = [n for n in walk_fn(f) if n["k"] in ("for", "while", "rfor") and
                 not any(x["k"] == "call" and x.get("fn", "").startswith(TASK) and not x.get("cm") for x in walk(n))]
        for n in loops:
            for x in walk(n["body"]):
                if x["k"] != "if":
                    continue
                rets = [y for y in walk(x["a"]) if y["k"] == "return"]
                if not rets or rets[0]["e"].get("cv") != 0:
                    continue
                c, neg = x["c"], False
                while c["k"] == "un" and c["op"] == "!":
                    c, neg = c["e"], not neg
                if c["k"] != "bin" or c["op"] not in ("<", ">", "<=", ">=", "!="):
                    continue
                def side(e):
                    names = [y["n"] for y in walk(e) if y["k"] == "mem" and y["dk"] == "field"]
                    if any(y["k"] == "bin" for y in walk(e)):
                        return None
                    return "end" if "end" in names else "i" if any(y.startswith("i") for y in names) else "?"
                L, R = side(c["L"]), side(c["R"])
                op = c["op"]
                if "end" not in [y["n"] for y in walk(c) if y["k"] == "mem"]:
                    continue
                flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}
                inv = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "=="}
                if neg:
                    op = inv[op]
                if L == "end":
                    L, R, op = R, L, flip.get(op, op)
                if L is None or R != "end" or op not in ("<", "<="):
                    res.bad("drop:" + f.q, f.file, x["l"], "%s: a shard counts as started although its next item (%s) may not have been" % (f.q, show(x["c"])))
                else:
                    res.ok("%s: a shard counts as started only once its counter reached its end" % f.q)


class EnqInterp(Interp):
    INLINE_NODES = 300
    made = None
    todo = ()

    def keep_fact(self, k):
        return True

    def hook_call(self, s, n, fn, obj, args, frame):
        q = n.get("fn", "")
        rv = lambda a: self.read_loc(s, a) if self.is_loc(a) else a
        if q == TASK + "::make" and fn is not None:
            pos = [i for i, p in enumerate(fn.params) if p["n"] == "n"] or [1]
            self.made.append((n, rv(args[pos[0]])))
            return [(s, ("task", n["id"]))]
        if "atomic" in n.get("rec", "") and obj is not None and self.is_loc(obj):
            loc = self.resolve_loc(s, obj)
            if loc[0] == "fld" and loc[2] in self.todo:
                return [(s, ("todo", loc))]
        return None

    def inline_ok(self, f, n):
        return "ref_count<" not in (f.rec or "")
