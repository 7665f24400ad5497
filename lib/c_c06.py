"""C06 worker pool."""
from vlib import *


def run(k):
    T = scale(k, 260, 2400)
    jobs = []
    for s in range(2):
        jobs.append(Job("pool", "pool.cc", "x86_default", san="tsan", opt="-O1", link=WRAP_SCHED,
                        defs=["-DNDEBUG"] if s else [], args=dict(seed=k.seed * 10 + s, cases=scale(k, 1800, 30000)), timeout=T, cores=3))
        jobs.append(Job("pool", "pool.cc", "x86_default", link=WRAP_SCHED, defs=["-DNDEBUG"] if s else [],
                        args=dict(seed=k.seed * 10 + s + 5, cases=scale(k, 4000, 60000)), timeout=T, cores=2))
    jobs.append(Job("pool", "pool.cc", "x86_default", san="asan", opt="-O1", link=WRAP_SCHED,
                    args=dict(seed=k.seed + 1, cases=scale(k, 1500, 20000)), timeout=T, cores=2))
    # no inline assembly in the busy wait, and oversubscription of one processor
    jobs.append(Job("pool_onecpu", "pool.cc", "x86_default", link=WRAP_SCHED, defs=["-DGEMMLOWP_NO_BUSYWAIT"],
                    runner=["taskset", "-c", "0"], args=dict(seed=k.seed + 2, cases=scale(k, 600, 8000)), timeout=T))
    for cfg in ARM:
        jobs.append(Job("pool", "pool.cc", cfg, link=WRAP_SCHED, args=dict(seed=k.seed + 3, cases=scale(k, 500, 5000)), timeout=T, cores=2))
    k.go(jobs)
    return k.finish("tasks_run", "cases",
                    "pools given random sequences of batches (sizes up to 16, both submission forms, varied durations) "
                    "with injected delays and spurious wake-ups; a trace monitor checks exactly-once, scratch ownership, "
                    "completion at return, visibility (ThreadSanitizer) and thread exit; distinct = batch sequences",
                    min_eval=1000)
