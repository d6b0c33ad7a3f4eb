from sa.program import Program
from sa.once import analyse_once
from .poolcommon import UNITS
LEVEL = "other"
EXPLANATION = ("Dataflow over the task object's code: indices come from a one-step atomic fetch-and-add and are used once; counts of "
               "executed items reach the outstanding-item counter exactly once; the shards' index ranges tile [0, n) (polynomial "
               "normal forms); the shard loops visit every shard; parallel_for runs or enqueues exactly n items and waits.")


def check(res, tier):
    res.rule("ticket", "each body call's index is the result of the latest atomic increment, unused before, and below the shard end")
    res.rule("accounting", "items executed, counted and subtracted from the outstanding counter agree on every path")
    res.rule("tiling", "shard ranges start at 0, chain, and end at n; every shard is visited")
    res.rule("forwarding", "enqueue and parallel_for pass the item count through unchanged; parallel_for waits")
    prog = Program(UNITS)
    analyse_once(prog, res)
    res.need(len(res.instances) + len(res.violations), "work accounting obligations", 8)
