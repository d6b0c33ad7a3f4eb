from sa.program import Program
from sa import threads

UNITS = ["base/thread_pool.cc", "base/thread_pool_impl.cc"]


def run(res, cats, minimum):
    prog = Program(UNITS)
    m, it, outs = threads.analyse(prog)
    n = 0
    for cat, ok, file, line, msg, fn in it.events:
        if cat not in cats:
            continue
        n += 1
        if ok:
            res.ok("%s:%d (%s) %s" % (file, line, fn.split("::")[-1], msg))
        else:
            res.bad("%s:%s:%s" % (cat, fn, msg), file, line, msg + " in " + fn)
    res.need(n, "%s events in the thread pool" % "/".join(cats), minimum)
    res.count("entry points analysed", len(outs))
    res.count("calls interpreted", it.stat_calls)
    res.count("path classes at exits", it.stat_paths)
    return prog, m, it, outs
