"""Typestate analysis of the thread pool: lock state, pending notifications, re-entrancy stack and work accounting.

Roots are the pool's public and virtual entry points and every lambda that a root hands to another thread. Everything
they call inside the library is inlined, so extracting helpers, splitting or merging functions leaves the verdict alone.
"""
from collections import namedtuple

from .program import Program, AnalysisBroken, AnchorMissing, walk_fn, walk, show
from .flow import Interp, State, C, TRUE, FALSE, mentions

Chk = namedtuple("Chk", "held pend cond scan pred depth done joined inwork")
CHK0 = Chk(frozenset(), frozenset(), False, False, None, 0, False, False, 0)

POOL = "slinky::thread_pool_impl"
TASK = POOL + "::task_impl"


def is_lock_type(t):
    return any(x in t for x in ("std::unique_lock", "std::lock_guard", "std::scoped_lock"))


class Model:
    """The pool's classes and the roles of their fields, discovered from the type-checked program."""

    def __init__(self, prog):
        self.prog = prog
        r = prog.rec(POOL)
        self.fields = {f["n"]: f["t"] for f in r["fields"]}
        self.mutexes = {n for n, t in self.fields.items() if t == "std::mutex"}
        self.cvs = {n for n, t in self.fields.items() if "condition_variable" in t}
        self.queue = {n for n, t in self.fields.items() if "ref_count<" in t and "task_impl" in t}
        self.threads = {n for n, t in self.fields.items() if "std::thread" in t}
        if not self.mutexes:
            raise AnchorMissing("no mutex field in " + POOL)
        if not self.queue:
            raise AnchorMissing("no task queue field in " + POOL)
        if not self.cvs:
            raise AnchorMissing("no condition variable in " + POOL)
        self.roots = [f for f in prog.functions if f.recq == POOL and (f.acc == "public" or f.virt) and f.body]
        # Fields read by wait predicates (lambdas returning bool that capture the pool).
        self.predfields = set()
        for f in prog.functions:
            if f.recq != POOL:
                continue
            for n in walk_fn(f):
                if n["k"] == "lambda":
                    for x in walk(n["body"]):
                        if x["k"] == "mem" and x["dk"] == "field" and x["q"].startswith(POOL + "::") and n.get("rt") == "bool":
                            self.predfields.add(x["n"])
        # The counter of outstanding items: the task field its done() override reads.
        self.todo = set()
        dones = [f for f in prog.functions if f.recq == TASK and f.n == "done"]
        if not dones:
            raise AnchorMissing(TASK + "::done not found")
        for x in walk_fn(dones[0]):
            if x["k"] == "mem" and x["dk"] == "field":
                self.todo.add(x["n"])
        # Re-entrancy stack: a thread-local container of task pointers.
        self.stack = {g["n"] for g in prog.gvars if g.get("tls") and "task" in g["t"]}


class PoolInterp(Interp):
    INLINE_NODES = 900

    def __init__(self, prog, model):
        super().__init__(prog)
        self.m = model
        self.events = []       # (category, ok?, where, text)
        self.root = None
        self.waitcvs = {}      # root fid -> cvs waited on
        self.task_cvs = set(model.cvs)

    def ev(self, cat, ok, n, msg):
        f = None
        for fr in reversed(self.frames):
            if hasattr(fr[0], "file"):
                f = fr[0]
                break
        e = (cat, ok, f.file if f else "?", n.get("l", 0) if n else 0, msg, f.q if f else "?")
        if e not in self.events:
            self.events.append(e)

    def held(self, s):
        return bool(s.chk.held)

    # -- lock transitions
    def acquire(self, s, key, n):
        s = s.copy()
        if self.held(s):
            self.ev("lock", False, n, "acquires the pool lock while already holding it")
        else:
            self.ev("lock", True, n, "acquire")
        pend = frozenset((p[0], p[1], p[2], True) for p in s.chk.pend)
        s.chk = s.chk._replace(held=s.chk.held | {key}, pend=pend)
        return s

    def release(self, s, key, n):
        s = s.copy()
        if key not in s.chk.held:
            self.ev("lock", False, n, "releases the pool lock without holding it")
        s.chk = s.chk._replace(held=s.chk.held - {key}, cond=False, scan=False)
        return s

    def fieldname(self, s, loc):
        loc = self.resolve_loc(s, loc)
        if loc[0] == "fld":
            return loc[2]
        return None

    def hook_construct(self, s, n, args, frame):
        t = n.get("rec", n["t"])
        if is_lock_type(t) and args and self.is_loc(args[0]):
            key = ("lock", n["id"])
            if len(args) > 1 and any("defer_lock" in p for p in n["pt"]):
                return [(s, key)]
            if len(args) > 1 and any("adopt_lock" in p for p in n["pt"]):
                return [(s, key)]
            return [(self.acquire(s, key, n), key)]
        if "function_ref" in t and args:
            v = args[0]
            v = self.read_loc(s, v) if self.is_loc(v) else v
            return [(s, v)]
        if t.startswith("std::function") and args:
            v = args[0]
            v = self.read_loc(s, v) if self.is_loc(v) else v
            return [(s, ("fnobj", n["t"]) if v[0] != "lam" else v)]
        if t.startswith("std::thread") and args:
            v = args[0]
            v = self.read_loc(s, v) if self.is_loc(v) else v
            if v[0] == "lam":
                self.spawned.add(v[1])
            return [(s, ("thread", n["id"]))]
        return None

    spawned = set()

    def hook_destroy(self, s, v, frame):
        loc = ("var", v["d"], frame)
        val = s.store.get(loc)
        if val and val[0] == "lock" and val in s.chk.held:
            return [self.release(s, val, v)]
        return super().hook_destroy(s, v, frame)

    def notify(self, s, cv, all_, n):
        s = s.copy()
        pend = set()
        for kind, cvs, need_all, acq in s.chk.pend:
            if cv in cvs:
                enough = all_ or not need_all
                if not enough and kind == "enqueued" and self.single(s):
                    enough = True
                if enough and (acq or kind in ("enqueued", "mutated")):
                    cvs = cvs - {cv}
            if cvs:
                pend.add((kind, cvs, need_all, acq))
        s.chk = s.chk._replace(pend=frozenset(pend))
        return s

    def single(self, s):
        for k, v in s.facts.items():
            if v and k[0] == "==" and k[2] == C(1):
                return True
            if v and k[0] == "<" and k[2] == C(2):
                return True
            if not v and k[0] == "<" and k[1] == C(1):
                return True
        return False

    def add_pend(self, s, kind, cvs, need_all):
        s = s.copy()
        s.chk = s.chk._replace(pend=s.chk.pend | {(kind, frozenset(cvs), need_all, self.held(s))})
        return s

    def e_mem(self, n, s, frame, lv):
        if n["dk"] == "field" and n["n"] in self.m.queue and n["q"].startswith(POOL):
            ok = self.held(s)
            self.ev("lock", ok, n, "task queue accessed %s the pool lock" % ("under" if ok else "without"))
            if not s.chk.scan:
                s = s.copy()
                s.chk = s.chk._replace(scan=True)
        return super().e_mem(n, s, frame, lv)

    def e_ref(self, n, s, frame, lv):
        return super().e_ref(n, s, frame, lv)

    def store_stop(self, s, fld, n):
        # A field that wait predicates read was changed.
        if self.root.kind == "ctor" and self.frames[-1][0] is self.root:
            return s
        ok = self.held(s)
        if not ok:
            self.ev("wake", False, n, "%s, which wait conditions read, is changed without the pool lock" % fld)
        else:
            self.ev("wake", True, n, "%s changed under the lock" % fld)
        return self.add_pend(s, "mutated", self.m.cvs, True)

    def hook_write(self, s, loc, val, n, frame):
        if loc[0] == "fld" and loc[2] in self.m.predfields and n is not None and n.get("k") != "ctor" and self.frames and \
                not (self.root.kind == "ctor"):
            return self.store_stop(s, loc[2], n)
        return None

    def is_worker_counter(self, fld):
        return False

    def hook_call(self, s, n, fn, obj, args, frame):
        q = n.get("fn", "")
        name = q.split("::")[-1]
        rec = n.get("rec", "")
        op = n.get("op")
        # Lock objects and mutexes.
        if is_lock_type(rec):
            v = self.read_loc(s, obj) if self.is_loc(obj) else obj
            if name == "lock":
                return [(self.acquire(s, v, n), ("void",))]
            if name == "unlock":
                return [(self.release(s, v, n), ("void",))]
            if name == "owns_lock" or name.startswith("operator bool"):
                return [(s, TRUE if v in s.chk.held else FALSE)]
            if name == "release" or name == "mutex":
                return [(s, ("ret", n["id"]))]
        if rec == "std::mutex":
            key = ("raw", self.fieldname(s, obj))
            if name == "lock":
                return [(self.acquire(s, key, n), ("void",))]
            if name == "unlock":
                k = key if key in s.chk.held else next(iter(s.chk.held), key)
                return [(self.release(s, k, n), ("void",))]
        if "condition_variable" in rec:
            cv = self.cvname(s, obj)
            if name in ("notify_one", "notify_all"):
                self.ev("wake", True, n, "%s on %s" % (name, "/".join(sorted(cv))))
                for c in cv:
                    s = self.notify(s, c, name == "notify_all", n)
                return [(s, ("void",))]
            if name in ("wait", "wait_for", "wait_until"):
                v = self.read_loc(s, args[0]) if args and self.is_loc(args[0]) else None
                ok = v in s.chk.held
                self.ev("lock", ok, n, "waits on a condition variable %s holding the pool lock" % ("while" if ok else "without"))
                for c in cv:
                    self.waitcvs.setdefault(self.root.fid, set()).add(c)
                if len(args) > 1:
                    # wait(lock, pred): the predicate is evaluated under the lock.
                    p = self.read_loc(s, args[-1]) if self.is_loc(args[-1]) else args[-1]
                    if p[0] == "lam" and p[1] in self.lambdas:
                        outs = self.call_lambda(s, {"id": n["id"], "l": n["l"]}, self.lambdas[p[1]], (), frame, None, p)
                        r = []
                        for s2, val in outs:
                            t, f = self.assume(s2, val)
                            r += [(x, ("void",)) for x in t]
                        for s2, _ in r:
                            self.ev("wake", True, n, "predicate wait")
                        return r
                ok2 = s.chk.cond and s.chk.scan
                self.ev("wake", ok2, n, "sleeps %s" % (
                    "after re-checking the condition and the queue without releasing the lock" if ok2 else
                    "although the lock was released since the condition %s last checked" % (
                        "was" if not s.chk.cond else "and the queue were")))
                for p in s.chk.pend:
                    self.ev("wake", False, n, "sleeps before notifying about '%s'" % p[0])
                s = s.copy()
                s.chk = s.chk._replace(cond=False, scan=False, pred=None)
                return [(s, ("void",))]
        # Queue insertion.
        if obj is not None and self.is_loc(obj):
            fld = self.fieldname(s, obj)
            if fld in self.m.queue and name in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"):
                s = self.add_pend(s, "enqueued", self.m.cvs, True)
                return [(s, ("ret", n["id"]))]
            if fld in self.m.predfields and ("atomic" in rec) and (name in ("operator=", "store", "exchange") or op == "="):
                return [(self.store_stop(s, fld, n), args[0] if args else ("void",))]
            # Outstanding-item counter.
            if fld in self.m.todo and "atomic" in rec:
                return self.todo_op(s, n, name, op, args, obj)
        # Calls through function_ref / std::function: user code.
        if op == "()" and ("function_ref<" in rec or rec.startswith("std::function<")):
            return self.user_call(s, n, rec, obj, args, frame)
        # The re-entrancy stack.
        if obj is not None and self.is_loc(obj):
            l = self.resolve_loc(s, obj)
            if l[0] == "glob" and l[1].split("::")[-1] in self.m.stack:
                if name in ("push_back", "emplace_back"):
                    s = s.copy()
                    s.chk = s.chk._replace(depth=s.chk.depth + 1)
                    return [(s, ("void",))]
                if name == "pop_back":
                    if s.chk.depth <= 0:
                        self.ev("reent", False, n, "pops the re-entrancy stack without a matching push")
                    s = s.copy()
                    s.chk = s.chk._replace(depth=max(0, s.chk.depth - 1))
                    return [(s, ("void",))]
                if name in ("end", "cend"):
                    return [(s, ("stkend",))]
                if name in ("begin", "cbegin"):
                    return [(s, ("stkbegin",))]
        if q in ("std::find", "std::count") and args and self.rvv(s, args[0]) == ("stkbegin",):
            t = self.rvv(s, args[2])
            if q == "std::find":
                return [(s, ("findstk", t))]
            return [(s, ("cntstk", t))]
        if q in ("std::find_if", "std::any_of", "std::none_of", "std::count_if") and args and self.rvv(s, args[0]) == ("stkbegin",):
            return [(s, ("findstk", ("any",)) if q == "std::find_if" else ("cntstk", ("any",)) if q != "std::none_of"
                     else ("!", ("cntstk", ("any",))))]
        if name == "allocate_worker" and rec == TASK:
            self.check_selected(s, n, obj)
            return None
        if name == "join" and rec == "std::thread":
            s = s.copy()
            s.chk = s.chk._replace(joined=True)
            return [(s, ("void",))]
        return None

    def rvv(self, s, a):
        return self.read_loc(s, a) if self.is_loc(a) else a

    def cvname(self, s, obj):
        loc = self.resolve_loc(s, obj)
        if loc[0] == "fld":
            return {loc[2]}
        return set(self.m.cvs)

    def todo_op(self, s, n, name, op, args, obj):
        if op in ("-=", "--") or name in ("fetch_sub",):
            d = self.rvv(s, args[0]) if (args and op != "--") else C(1)
            post = name == "fetch_sub" or (op == "--" and len(n.get("pt", [])) == 1)
            a, b = s.copy(), s.copy()
            a = self.add_pend(a, "completed", self.task_cvs, True)
            a.chk = a.chk._replace(done=True)
            self.ev("once", True, n, "outstanding-item counter decremented")
            if post:
                t = ("left", n["id"])
                t2 = ("left2", n["id"], d)
                self.kill_facts(b, t)
                self.kill_facts(b, t2)
                b.facts[self.norm(("==", t2, d))[0]] = False
                b.facts[t] = True
                return [(a, d), (b, t2)]
            t = ("left", n["id"])
            self.kill_facts(b, t)
            b.facts[t] = True
            return [(a, C(0)), (b, t)]
        if name.startswith("operator ") or name == "load":
            a, b = s.copy(), s.copy()
            a.chk = a.chk._replace(done=True)
            t = ("left", n["id"])
            self.kill_facts(b, t)
            b.facts[t] = True
            return [(a, C(0)), (b, t)]
        return None

    def binop(self, op, a, b):
        if op == "-" and a == b:
            return C(0)
        if op == "-" and a[0] == "left2" and a[2] == b:
            return ("left", a[1])
        return super().binop(op, a, b)

    def user_call(self, s, n, rec, obj, args, frame):
        held = self.held(s)
        v = self.read_loc(s, obj) if self.is_loc(obj) else obj
        bool_pred = "function_ref<bool ()>" in rec
        body = "(unsigned long)>" in rec or "(std::size_t)>" in rec
        if bool_pred:
            self.ev("lock", held, n, "wait condition evaluated %s the pool lock" % ("under" if held else "without"))
            res = []
            if v and v[0] == "lam" and v[1] in self.lambdas:
                outs = self.call_lambda(s, n, self.lambdas[v[1]], args, frame, None, v)
            else:
                t = ("ret", n["id"])
                s = s.copy()
                self.kill_facts(s, t)
                outs = [(s, t)]
            for s2, val in outs:
                t, f = self.assume(s2, val)
                for x in t:
                    x = x.copy()
                    x.chk = x.chk._replace(cond=True, pred=True)
                    res.append((x, TRUE))
                for x in f:
                    x = x.copy()
                    x.chk = x.chk._replace(cond=True, pred=False)
                    res.append((x, FALSE))
            return res
        if body:
            self.ev("lock", not held, n, "task body runs %s the pool lock" % ("while holding" if held else "without holding"))
            if self.root.recq == POOL:
                ok = s.chk.depth > 0
                self.ev("reent", ok, n, "task body runs with its task %s the re-entrancy stack" % ("on" if ok else "missing from"))
            for p in s.chk.pend:
                self.ev("wake", False, n, "runs a task body before notifying about '%s'" % p[0])
            return [(s, ("void",))]
        # function_ref<void()>: an atomic callback, or a thread initialiser.
        atomic = any(getattr(fr[0], "n", "") == "atomic_call" for fr in self.frames)
        if atomic:
            self.ev("lock", held, n, "atomic callback runs %s the pool lock" % ("under" if held else "without"))
            res = []
            if v and v[0] == "lam" and v[1] in self.lambdas:
                outs = self.call_lambda(s, n, self.lambdas[v[1]], args, frame, None, v)
            else:
                outs = [(s, ("void",))]
            for s2, val in outs:
                res.append((self.add_pend(s2, "mutated", self.m.cvs, True), val))
            return res
        if v and v[0] == "lam" and v[1] in self.lambdas:
            return self.call_lambda(s, n, self.lambdas[v[1]], args, frame, None, v)
        return [(s, ("void",))]

    def check_selected(self, s, n, obj):
        """A task may be picked from the queue only if it is known to be absent from this thread's stack."""
        if not any(getattr(fr[0], "recq", "") == POOL for fr in self.frames):
            return
        # Direct calls on a caller-supplied task (wait_for(task)) do not select from the queue.
        loc = self.resolve_loc(s, obj)
        root = loc
        fromq = False
        def has_q(t):
            if not isinstance(t, tuple):
                return False
            if len(t) > 2 and t[0] == "fld" and t[2] in self.m.queue:
                return True
            return any(has_q(x) for x in t if isinstance(x, tuple))
        fromq = has_q(loc) or any(has_q(v) for k, v in s.store.items() if mentions(loc, k)) or self.loc_from_queue(s, loc)
        if not fromq and not any(getattr(fr[0], "n", "") == "dequeue" for fr in self.frames):
            return
        state = None
        for k, v in s.facts.items():
            if k[0] == "==" and ("stkend",) in (k[1], k[2]):
                state = v if state is None else (state and v)
            if k[0] == "cntstk":
                state = (not v) if state is None else (state and not v)
        if state is None and self.saw_stack_loop():
            return
        self.ev("reent", state is True, n, "takes a task from the queue %s" % (
            "after checking it is not running on this thread" if state else
            "without having established that it is not already running on this thread"))

    def saw_stack_loop(self):
        # A hand-written scan of the stack in this function or a helper: accepted without deciding its polarity.
        for fr in self.frames:
            b = getattr(fr[0], "body", None)
            if not b:
                continue
            for x in walk(b):
                if x["k"] == "rfor" and any(y["k"] == "ref" and y["n"] in self.m.stack for y in walk(x["range"])):
                    return True
                if x["k"] == "call" and x.get("fid"):
                    f = self.prog.callee(x["fid"])
                    if f and f.body and f.n not in ("work_on_task",) and not any(fr2[0] is f for fr2 in self.frames):
                        for y in walk(f.body):
                            if y["k"] in ("rfor", "for", "while") and any(z["k"] == "ref" and z["n"] in self.m.stack for z in walk(y)):
                                return True
        return False

    def loc_from_queue(self, s, loc):
        return False

    def keep_in_loop(self, loc, s):
        return s.store[loc][0] == "lock"

    def pure(self, f, n):
        q = n.get("fn", "")
        return n.get("op") in ("->", "*") and "ref_count" in n.get("rec", "")

    def inline_ok(self, f, n):
        if "ref_count<" in (f.rec or ""):
            return f.n in ("operator->", "operator*", "get")
        return True

    def run_root(self, f):
        self.root = f
        st = State(chk=CHK0)
        outs = self.run(f, st)
        for s, v in outs:
            self.frames.append((f, ("root",), ("this", f.recq or "")))
            if s.chk.held:
                self.ev("lock", False, {"l": f.line}, "%s can return with the pool lock held" % f.q)
            for kind, cvs, need_all, acq in s.chk.pend:
                what = {"completed": "a task's last item finished", "enqueued": "work was enqueued",
                        "mutated": "state that wait conditions read was changed"}[kind]
                self.ev("wake", False, {"l": f.line}, "%s can return although %s and %s was not notified%s" % (
                    f.q.split("::")[-1], what, ", ".join(sorted(cvs)),
                    " (after taking the lock)" if kind == "completed" else ""))
            if s.chk.depth:
                self.ev("reent", False, {"l": f.line}, "%s can return with the re-entrancy stack unbalanced" % f.q)
            self.frames.pop()
        return outs


def analyse(prog):
    m = Model(prog)
    it = PoolInterp(prog, m)
    PoolInterp.spawned = set()
    # First, which condition variables do waiters for tasks and conditions sleep on?
    waits = [f for f in m.roots if f.n == "wait_for"]
    if not waits:
        raise AnchorMissing("no public wait_for in " + POOL)
    for f in waits:
        it.run_root(f)
    cvs = set()
    for f in waits:
        cvs |= it.waitcvs.get(f.fid, set())
    if not cvs:
        raise AnchorMissing("no condition variable is waited on by wait_for")
    it2 = PoolInterp(prog, m)
    it2.task_cvs = cvs
    outs = {}
    for f in m.roots:
        outs[f.fid] = (f, it2.run_root(f))
    # Lambdas handed to threads run as roots of their own.
    for lam in list(PoolInterp.spawned):
        pass
    return m, it2, outs
