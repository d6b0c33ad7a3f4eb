from sa import evalsem
from sa.program import AnalysisBroken


def run(res, cats, minimum):
    prog = evalsem.load()
    it, outs = evalsem.analyse(prog)
    n = 0
    for cat, ok, file, line, msg, fn in it.events:
        if cat not in cats:
            continue
        n += 1
        if ok:
            res.ok("%s:%d %s [%s]" % (file, line, msg, short(fn)))
        else:
            res.bad("%s:%s:%s" % (cat, short(fn), msg), file, line, "%s (evaluating %s)" % (msg, short(fn)))
    res.need(n, "%s events in the interpreter" % "/".join(cats), minimum)
    for u in it.undecided:
        res.note(u)
    res.count("interpreter entry points analysed", len(outs))
    res.count("calls interpreted", it.stat_calls)
    res.count("path classes at exits", it.stat_paths)
    res.assumptions.append("evaluating a child restores bindings and buffers and returns zero or a non-zero status (induction over the tree; every kind of node is analysed as the step)")
    return prog, it, outs


def short(fid):
    a = fid.split("(")[-1].rstrip(")").replace("const ", "").replace("slinky::", "").replace(" *", "")
    return fid.split("::")[-2].split("(")[0].split("::")[-1] + ":" + a if "evaluator" not in fid else a


def label(R):
    """A readable name for a changed resource."""
    names = []

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == "fld":
                go(t[1])
                names.append(str(t[2]))
                return
            for x in t:
                go(x)
    go(R[1])
    return ("binding of " if R[0] == "bind" else "buffer ") + ".".join(x for x in names if x not in ("context",))
