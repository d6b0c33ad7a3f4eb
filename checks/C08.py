from .evalcommon import run, short, label
LEVEL = "other"
EXPLANATION = ("Typestate dataflow over the evaluation of every kind of IR node: each change of a symbol's binding, or of a field of "
               "a buffer reached through a binding, opens an obligation which only writing the saved original value closes; all "
               "obligations must be closed at every exit, including failure exits, and lists must be undone in reverse.")


def check(res, tier):
    res.rule("restored", "on every path to a return, each changed binding and in-place buffer field holds its original value again")
    res.rule("reverse", "a list of bindings is undone in the reverse of the order it was made, over the same range")
    prog, it, outs = run(res, ("restore", "bind"), 8)
    for f, kind, rs in outs:
        bad = {}
        for s, v in rs:
            for e in s.chk.dirty:
                bad[label(e[0])] = s
        for l in sorted(bad):
            res.bad("dirty:%s:%s" % (short(f.fid), l), f.file, f.line, "%s may still be changed when evaluating a %s returns" % (l, short(f.fid)))
        if not bad:
            res.ok("%s: everything changed is restored at all %d exit classes" % (short(f.fid), len(rs)))
