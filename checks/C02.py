from .poolcommon import run
from sa.program import AnalysisBroken, AnchorMissing
LEVEL = "other"
EXPLANATION = ("Typestate dataflow over every thread-pool entry point: each event that can satisfy a waiter opens a notification "
               "obligation that must be closed on every path to a return, sleep or task body; each sleep must follow a "
               "condition and queue check with the lock continuously held; each wait returns only once its condition was seen true.")


def check(res, tier):
    res.rule("notify-after-event", "queue insertion, atomic callbacks, changes of state read by wait conditions, and the decrement "
             "that completes a task are followed by notifications of every condition variable a waiter may sleep on; a completion "
             "must be followed by an acquisition of the lock before the notification")
    res.rule("check-then-sleep", "a condition variable is waited on only if the condition and the queue were examined since the lock was last acquired")
    res.rule("return-when-true", "a wait for a condition returns only on paths where the condition was last seen true; a wait for a task only after it was seen complete")
    res.assumptions += ["std::condition_variable semantics", "user conditions change only through atomic_call or task completion"]
    prog, m, it, outs = run(res, ("wake",), 8)
    for fid, (f, o) in outs.items():
        if f.n not in ("wait_for", "run_worker"):
            continue
        task = any("task *" in p["t"] for p in f.params)
        for s, v in o:
            ok = s.chk.done if task else s.chk.pred is True
            if not ok:
                res.bad("early-return:" + fid, f.file, f.line, "%s can return although the %s" % (
                    fid, "task was not seen complete" if task else "condition was not seen true"))
                break
        else:
            res.ok("%s returns only when the %s" % (fid, "task is complete" if task else "condition is true"))
    # Shutdown: the destructor changes the stop flag, notifies, and joins every thread.
    dt = [f for f in m.roots if f.kind == "dtor"]
    if not dt:
        raise AnchorMissing("thread pool destructor not found")
    from sa.program import walk_fn, walk
    sets = joins = False
    fs = [dt[0]]
    seen = set()
    while fs:
        g = fs.pop()
        if id(g) in seen:
            continue
        seen.add(id(g))
        for n in walk_fn(g):
            if n["k"] == "call":
                if n.get("fn") == "std::thread::join":
                    joins = True
                if (n.get("op") == "=" or n.get("fn", "").endswith("store")):
                    for x in walk(n):
                        if x["k"] == "mem" and x["n"] in m.predfields:
                            sets = True
                h = prog.callee(n.get("fid"))
                if h and h.recq == m and False:
                    pass
                if h and (h.recq or "").startswith("slinky::thread_pool_impl") or (h and h.q.startswith("slinky::(anonymous")):
                    fs.append(h)
            if n["k"] == "bin" and n["op"] == "=":
                for x in walk(n["L"]):
                    if x["k"] == "mem" and x["n"] in m.predfields:
                        sets = True
    if not sets:
        res.bad("stop", dt[0].file, dt[0].line, "the destructor does not set the flag that ends the workers")
    else:
        res.ok("destructor sets the stop flag")
    if not joins:
        res.bad("join", dt[0].file, dt[0].line, "the destructor does not join the worker threads")
    else:
        res.ok("destructor joins the workers")
