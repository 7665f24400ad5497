"""C07 counter and variable waits."""
from vlib import *


def run(k):
    T = scale(k, 260, 2400)
    jobs = []
    for s in range(2):
        jobs.append(Job("sync", "sync.cc", "x86_default", san="tsan", opt="-O1", link=WRAP_SCHED,
                        defs=["-DNDEBUG"] if s else [], args=dict(seed=k.seed * 10 + s, cases=scale(k, 3500, 60000)), timeout=T, cores=2))
        jobs.append(Job("sync", "sync.cc", "x86_default", link=WRAP_SCHED, defs=["-DNDEBUG"] if s else [],
                        args=dict(seed=k.seed * 10 + s + 5, cases=scale(k, 9000, 150000)), timeout=T, cores=2))
    jobs.append(Job("sync_nobusywait", "sync.cc", "x86_default", link=WRAP_SCHED, defs=["-DGEMMLOWP_NO_BUSYWAIT"],
                    args=dict(seed=k.seed + 2, cases=scale(k, 6000, 60000)), timeout=T))
    jobs.append(Job("sync_onecpu", "sync.cc", "x86_default", link=WRAP_SCHED,
                    runner=["taskset", "-c", "0"], args=dict(seed=k.seed + 2, cases=scale(k, 1500, 20000)), timeout=T))
    for cfg in ARM:
        jobs.append(Job("sync", "sync.cc", cfg, link=WRAP_SCHED, args=dict(seed=k.seed + 3, cases=scale(k, 1500, 15000)), timeout=T, cores=2))
    k.go(jobs)
    return k.finish(["counter_waits", "variable_waits"], "cases",
                    "counters and variables exercised by up to six threads with changes before, during and after the busy "
                    "wait, extra broadcasts, spurious wake-ups and injected delays; distinct = scenario parameters",
                    min_eval=1000)
