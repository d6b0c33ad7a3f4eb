from .evalcommon import run, short
from sa.program import AnalysisBroken, AnchorMissing
LEVEL = "other"
EXPLANATION = ("Typestate dataflow over the evaluation of every kind of IR node: an allocation obtained from the user's allocator is live "
               "until passed to the user's free function; it must be freed exactly once on every path, also when an inner statement "
               "frees it early or fails, and an early free must clear the handle.")


def check(res, tier):
    res.rule("freed-once", "on every path to a return, an allocation was freed exactly once; nothing else is passed to free")
    res.rule("early-free", "an early free clears the stored handle after freeing it, so the owner does not free it again")
    prog, it, outs = run(res, ("alloc",), 1)
    early = 0
    for f, kind, rs in outs:
        leak = any(s.chk.live for s, v in rs)
        if leak:
            res.bad("leak:" + short(f.fid), f.file, f.line, "an allocation is still live when evaluating a %s returns" % short(f.fid))
        elif any(s.chk.freed for s, v in rs):
            res.ok("%s: allocation freed at all exit classes" % short(f.fid))
        for s, v in rs:
            for e in s.chk.events:
                if e == "nullfree":
                    early += 1
                if isinstance(e, tuple) and e[0] == "freed":
                    early += 1
                    if s.store.get(e[1]) != ("null",):
                        res.bad("early:" + short(f.fid), f.file, f.line, "an early free does not clear the handle; the allocation is freed again by its owner")
                    else:
                        res.ok("early free clears the handle")
    if not early:
        raise AnchorMissing("the early free intrinsic was not found")
