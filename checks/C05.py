from .evalcommon import run, short
from sa.program import walk_fn, AnalysisBroken, AnchorMissing, walk
LEVEL = "other"
EXPLANATION = ("Dataflow over the evaluation of every kind of IR node: tasks started are awaited on every path to a return, parallel iterations "
               "write only through their own copy of the state or atomics, and the starting thread neither changes its context nor "
               "reads results while a task that uses them may be running.")


def check(res, tier):
    res.rule("awaited", "every task enqueued on the pool is waited for before the evaluation that started it returns")
    res.rule("private", "parallel iterations write only their own copies, atomics, or freshly created contexts")
    res.rule("undisturbed", "while a task may be running, its starter does not change the context or variables the task uses")
    res.rule("own-copy", "each worker runs its own copy of a parallel body that has state")
    prog, it, outs = run(res, ("task",), 2)
    started = 0
    for f, kind, rs in outs:
        left = any(s.chk.tasks for s, v in rs)
        if left:
            res.bad("unawaited:" + short(f.fid), f.file, f.line, "evaluating a %s can return while a task it started is running" % short(f.fid))
        if any(n["k"] == "call" and n.get("fn", "").split("::")[-1] in ("enqueue", "parallel_for") for n in walk_fn(f)):
            started += 1
            if not left:
                res.ok("%s: no task outlives its evaluation" % short(f.fid))
    own_copy(res)


def own_copy(res):
    from sa.program import Program
    prog = Program(["base/thread_pool.cc", "base/thread_pool_impl.cc"])
    n = 0
    for f in prog.functions:
        if f.dep or not f.body or f.n != "work":
            continue
        # The object invoked as the body.
        fields = set()
        rec = prog.records.get(f.rec or "")
        if rec:
            fields = {x["n"] for x in rec["fields"] if "std::function<" in x.get("t", "") or "function_ref" in x.get("t", "")}
        if not fields:
            continue
        if not any(y["k"] == "mem" and y["n"] in fields for y in walk_fn(f)):
            continue
        n += 1
        copies = False
        direct = None
        for x in walk_fn(f):
            uses = lambda y: any(z["k"] == "mem" and z["n"] in fields for z in walk(y))
            if x["k"] == "decl":
                for v in x["v"]:
                    if v.get("init") and not v["t"].rstrip().endswith(("&", "*")) and uses(v["init"]) and not v["t"].startswith(("bool", "const bool")):
                        copies = True
            elif x["k"] == "ctor" and x.get("copy") and any(uses(a) for a in x["args"]):
                copies = True
            elif x["k"] == "lambda" and any(c.get("init") and uses(c["init"]) and not c.get("ref") for c in x["caps"]):
                copies = True
            elif x["k"] == "mem" and x["n"] in fields:
                direct = direct or x
        if copies:
            res.ok("%s: each worker copies the body before running it" % f.q)
        else:
            res.bad("own-copy:" + f.q, f.file, direct["l"], "workers of one parallel loop share one body object and its state")
    if not n:
        raise AnchorMissing("task class with a body not found")
