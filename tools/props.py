"""The properties, their checks and the generated files properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


CHECKS = {}   # id -> (technique, level_note)
NA = {}       # id -> reason

TP = ["slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h", "slinky/base/thread_pool.cc"]

prop("C01", "Scheduler state is only touched under the scheduler's lock",
     """Every access to the thread pool's queue of pending work happens while the pool's lock is held, and wait conditions
     and atomic callbacks are evaluated with it held. Work bodies run without the lock. No entry point acquires the lock
     twice, releases it unheld, or returns with it held.""",
     ["schedules"], "every interleaving of threads enqueuing, working, waiting and shutting the pool down",
     "Tests run a handful of interleavings on one machine; a missing or misplaced lock shows only when two threads touch the queue at the same instant.",
     TP, [("mutex, unique_lock and manual unlock/lock around work", "thread_pool_impl.cc: run_worker, wait_for, enqueue, atomic_call")],
     observe=["data races on the queue", "deadlock"])
CHECKS["C01"] = ("interprocedural lock-set dataflow over the clang AST of every pool entry point",
                 "Sound up to the engine's path merging on the functions reached; assumes std::mutex semantics.")

prop("C02", "No wakeup is lost: waiters are notified, and return only when done",
     """Whenever something a thread may be waiting for happens (work is enqueued, the last item of a task completes, an atomic
     callback runs, the pool stops), every condition variable such a thread may sleep on is notified, after the event and with
     the lock taken in between. A thread goes to sleep only if it examined its condition and the queue since it last acquired
     the lock. Waiting returns only once the awaited condition or task was seen complete, and destroying the pool stops and joins every worker.""".replace("\n", " "),
     ["schedules"], "every interleaving of notifiers and waiters",
     "A lost wakeup needs a notifier to run in the window between a waiter's check and its sleep; tests hit that window only by luck, and polling elsewhere hides it.",
     TP, [("notify_all after completion, enqueue, atomic_call; condition re-checked under the lock", "thread_pool_impl.cc")],
     observe=["hang"])
CHECKS["C02"] = ("typestate dataflow: notification obligations and check-then-sleep windows on every path",
                 "Obligations are opened by events discovered in the AST and must be closed on all abstract paths.")

prop("C03", "Every item of a parallel task runs exactly once",
     """A parallel task of n items runs its body exactly once for each index 0 to n-1, whatever the number of threads and however
     they interleave: no index is skipped, repeated or out of range. The task is reported complete only after all its bodies returned.""",
     ["schedules", "inputs"], "all item counts, thread counts and interleavings",
     "Tests use a few sizes and thread counts; duplicated or skipped items depend on which thread takes which shard when.",
     TP, [("sharded atomic counters and the outstanding-item count", "thread_pool_impl.cc: task_impl")],
     observe=["body invocations", "completion of wait_for"])
CHECKS["C03"] = ("dataflow over ticket/accounting typestate plus polynomial normal forms of shard ranges",
                 "Shard tiling is proved symbolically; accounting on every abstract path.")

prop("C04", "A task is never re-entered by a thread that is already running it",
     """A thread that waits inside a task body may help with other queued work, but it never takes from the queue a task that it
     is already executing further down its own stack. The record of which tasks a thread is executing is balanced on every path.""",
     ["schedules", "programs"], "every nesting of waits inside parallel loops and every interleaving",
     "Recursion happens only if a nested wait finds its own outer task at the head of the queue; tests cannot enumerate nesting and timing.",
     TP, [("thread-local task stack", "thread_pool_impl.cc: work_on_task, dequeue")],
     observe=["stack overflow", "work run in the wrong frame"])
CHECKS["C04"] = ("typestate dataflow over the thread-local task stack", "Membership test must be negative on every path that selects a queued task.")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                           "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash extract/build.sh", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    design()
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


def design():
    """DESIGN.md, from its text and the current lists of planted bugs and properties that are not applicable."""
    import glob
    t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
    rows = ["| planted bug | what it breaks | what it needs |", "|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|")))
    t = t.replace("@@SEEDS@@", "\n".join(rows)).replace("@@MORE@@\n", "")
    t = t.replace("@@NA@@", "\n".join("* **%s %s**: %s" % (p["id"], p["title"], NA.get(p["id"], "no check built yet")) for p in P if p["id"] not in CHECKS))
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write(t)


main()
