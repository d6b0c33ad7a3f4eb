from .evalcommon import run, short
LEVEL = "other"
EXPLANATION = ("Dataflow over the evaluation of every kind of IR node with a difference-bound prover over the branch facts: every write of a "
               "binding is preceded by making its slot exist, no reference into the context is used after the context may have grown, "
               "and every index into a buffer's dimensions, a stack array or an operand list is shown to be below its size.")


def check(res, tier):
    res.rule("slot-exists", "a binding is written only after the context was grown to hold that symbol")
    res.rule("no-stale-reference", "a reference to a slot is not used after anything that may grow the context")
    res.rule("below-rank", "dims[i] of a bound buffer only with i < rank; stack arrays and operand lists only below their size")
    run(res, ("reserve", "slots", "dims"), 20)
