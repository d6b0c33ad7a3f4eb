from .poolcommon import run
LEVEL = "other"
EXPLANATION = ("Interprocedural lock-state dataflow over every entry point of the thread pool (all calls inside the library "
               "inlined): task-queue accesses, condition waits, wait conditions, atomic callbacks and task bodies are each "
               "checked against the set of locks held on every path.")


def check(res, tier):
    res.rule("guarded-by", "the task queue is touched only with the pool mutex held; condition variables are waited on only with it held")
    res.rule("callback-context", "wait conditions and atomic callbacks run with the mutex held, task bodies without it")
    res.rule("balance", "the mutex is never acquired twice, released unheld, or held at return of an entry point")
    res.assumptions += ["user callbacks do not call back into the pool's private state",
                        "std::mutex/std::unique_lock behave as specified"]
    run(res, ("lock",), 12)
