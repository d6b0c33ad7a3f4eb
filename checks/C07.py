from sa import lifetime
from sa.program import Program
LEVEL = "other"
EXPLANATION = ("Typestate over every function and lambda of the library: the access paths that have been moved away and the local pointers into "
               "nodes whose only handle was given another value, went out of scope or was a temporary; a read of either is a violation. "
               "Moves count where the move constructor or the function taking the rvalue runs; reads and moves in different arguments of "
               "one call count as unordered.")


def check(res, tier):
    res.rule("no-read-after-move", "on no path a variable or field is read after it was moved away and not given a value since")
    res.rule("no-unordered-move", "no argument of a call moves what another argument of the same call reads")
    res.rule("no-dangling-node", "a pointer into an expression or statement is not used after the only handle it came from holds something else, "
             "and is never taken from a temporary")
    prog = Program()
    TEXT = {
        "moved": "%s is read after it was moved away on line %s",
        "order": "%s is moved (line %s) in one argument of a call while another argument reads it: %s",
        "stale": "%s is used although the handle it points into holds something else since line %s (%s)",
        "temp": "%s points into a temporary that is gone after line %s: %s",
    }

    def report(kind, f, n, what, line, *r):
        msg = TEXT[kind] % tuple([what, line] + [str(x)[:80] for x in r])
        res.bad("%s: %s %s" % (f.q, kind, what), f.file, n.get("l") or f.line, "%s: %s" % (f.q, msg),
                ["%s:%s: %s" % (f.file, line, "given away"), "%s:%s: %s" % (f.file, n.get("l"), "used")])
    n = [0]

    def on(f, moves):
        if moves:
            n[0] += 1
            res.ok("%s: %d moves, nothing moved is read" % (f.q[:120], moves))
    tot = lifetime.analyse(prog, report, on)
    for k, v in tot.items():
        res.count(k, v)
    res.need(tot["moves"], "moves", 300)
    res.need(tot["pointers into nodes"], "pointers into nodes", 80)
    res.assumptions += ["a function taking an rvalue reference may move from it", "a handle that is copied or moved elsewhere in the function may keep its node alive"]
