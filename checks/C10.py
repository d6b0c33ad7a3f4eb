from .evalcommon import run, short
from sa.flow import C
LEVEL = "other"
EXPLANATION = ("Dataflow over the evaluation of every kind of statement: once a child statement (or user callback) has returned a non-zero "
               "status, no further statement is evaluated on that path and the value returned is decided to be non-zero; success paths "
               "return zero, and failure handlers are called exactly on failure.")


def check(res, tier):
    res.rule("propagated", "a path on which something failed returns a value that is non-zero; a path on which nothing failed returns zero")
    res.rule("stops", "after a failure no other statement is evaluated, except ones running concurrently")
    res.rule("reported", "the failure handler is called exactly on the paths where the check's condition is false or the call's status is non-zero")
    prog, it, outs = run(res, ("status",), 6)
    n = 0
    for f, kind, rs in outs:
        if kind != "stmt":
            continue
        name = short(f.fid)
        swallowed = phantom = False
        und = 0
        for s, v in rs:
            d = it.decide(s, v)
            if s.chk.err is not None:
                if d is False:
                    swallowed = True
                elif d is None:
                    und += 1
            elif d is None:
                und += 1
            elif d is True and v[0] != "c":
                phantom = True
        if swallowed:
            res.bad("swallowed:" + name, f.file, f.line, "evaluating a %s can return success although a statement inside it failed" % name)
        if phantom:
            res.bad("phantom:" + name, f.file, f.line, "evaluating a %s can return failure although nothing failed" % name)
        if und:
            res.note("%s: %d exit classes with an undecided status" % (name, und))
        if not (swallowed or phantom or und):
            res.ok("%s: status correct at all %d exit classes" % (name, len(rs)))
        n += 1
        if name == "check":
            verdict(res, it, f, rs)
        if name == "call_stmt":
            for s, v in rs:
                called = "call_failed" in s.chk.events
                if called != (s.chk.err is not None):
                    res.bad("handler:call", f.file, f.line, "the call_failed handler is %s a call that %s" % (
                        "called for" if called else "not called for", "failed" if s.chk.err else "succeeded"))
                    break
            else:
                res.ok("call_failed handler called exactly for failing calls")
    res.need(n, "statement kinds", 10)
    user(res, prog, it)


def verdict(res, it, f, rs):
    for s, v in rs:
        conds = [(k, p) for k, p in s.facts.items() if k[0] == "ret"]
        d = it.decide(s, v)
        called = "check_failed" in s.chk.events
        if not conds:
            res.note("check: condition not recognised on an exit")
            continue
        ok = conds[0][1]
        if d is None:
            res.note("check: undecided status")
        elif ok and (d or called):
            res.bad("check:true", f.file, f.line, "a check whose condition holds is treated as failed")
        elif not ok and not d:
            res.bad("check:false", f.file, f.line, "a check whose condition is false returns success")
        elif not ok and not called:
            res.bad("check:handler", f.file, f.line, "a failing check does not call the check_failed handler")
        else:
            res.ok("check: condition %s gives %s" % (ok, "success" if ok else "failure and the handler"))


def user(res, prog, it):
    """The public entry points return the interpreter's status."""
    for f in prog.functions:
        if f.dep or not f.body or not f.file.endswith("runtime/pipeline.cc") or f.n != "evaluate":
            continue
        rs = it.run_root(f, "stmt")
        for s, v in rs:
            d = it.decide(s, v)
            if s.chk.err is not None and d is False:
                res.bad("pipeline:swallowed", f.file, f.line, "evaluating a pipeline can return success although its body failed")
                break
        else:
            res.ok("pipeline::evaluate returns the status of its body")
