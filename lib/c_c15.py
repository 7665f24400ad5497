"""C15 profiling."""
from vlib import *

LINK = WRAP_SCHED + ["-Wl,--wrap=nanosleep"]


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    n = scale(k, 1, 12)
    for i, cfg in enumerate(X86):
        for s in range(2):
            jobs.append(Job("prof-tsan%d" % s, "prof.cc", cfg, san="tsan", opt="-O1", defs=["-DBD=0"] + (["-DNDEBUG"] if i == 1 else []), link=LINK,
                            args=dict(seed=k.seed * 20 + i * 2 + s, cases=500 * n), timeout=T, cores=2))
        jobs.append(Job("prof", "prof.cc", cfg, defs=["-DBD=0"] + (["-DNDEBUG"] if i == 2 else []), link=LINK,
                        args=dict(seed=k.seed * 20 + 7 + i, cases=2500 * n), timeout=T, cores=2))
    for s in range(2):
        jobs.append(Job("prof-asan%d" % s, "prof.cc", "x86_sse4", san="asan", opt="-O1", defs=["-DBD=0"], link=LINK,
                        args=dict(seed=k.seed * 20 + 10 + s, cases=900 * n), timeout=T, cores=2))
    for i, cfg in enumerate(ARM):
        jobs.append(Job("prof", "prof.cc", cfg, defs=["-DBD=0", "-DFEW_PIPES"], link=LINK,
                        args=dict(seed=k.seed * 20 + 12 + i, cases=200 * n, mac=30000), timeout=T, cores=2))
    k.go(jobs)
    return k.finish(["paths_checked", "exact_nodes_checked", "profiled_products"], "cases",
                    "rounds of profiling with a shortened tick while threads start, register, open, close and retitle nested "
                    "labels, leave them by exceptions, finish and run products; every path of every printed tree checked "
                    "against the stacks that existed, exact trees for threads holding known stacks; distinct = reported trees",
                    min_eval=5000)
