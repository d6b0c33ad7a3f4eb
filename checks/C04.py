from .poolcommon import run
LEVEL = "other"
EXPLANATION = ("Typestate dataflow over every thread-pool entry point: a task body runs only between the push and pop of its task on "
               "the thread-local stack, the stack is balanced at every return, and a task is taken from the queue only on paths "
               "where a membership test over that stack came out negative.")


def check(res, tier):
    res.rule("bracketed", "task bodies run only while their task is on the thread-local stack; pushes and pops balance on every path")
    res.rule("tested", "a queued task is selected only after a negative membership test over the thread-local stack")
    run(res, ("reent",), 1)
