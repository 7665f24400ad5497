"""C03 independence of threads, cache tuning, history, scratch contents and schedule."""
from vlib import *


def run(k):
    jobs = []
    for cfg in ALL6:
        arm = cfg not in X86
        for s in range(scale(k, 2, 4)):
            bd = 0 if s % 2 == 0 or cfg == "aarch64_dotprod" else 1
            jobs.append(Job("indep_bd%d" % bd, "gemm_indep.cc", cfg,
                            defs=["-DBD=%d" % bd] + (["-DNDEBUG"] if s % 2 else []), link=WRAP_ALLOC + WRAP_SCHED,
                            args=dict(seed=k.seed * 100 + s, cases=scale(k, 220 if arm else 1300, 2500 if arm else 20000),
                                      mac=700000 if arm else 2500000), timeout=scale(k, 260, 2400), cores=2))
    k.go(jobs)
    return k.finish("comparisons", "cases",
                    "each generated product is run on a fresh single-thread context and on two to five contexts with "
                    "other thread counts, cache tunings, histories, garbage in all scratch memory and injected delays, "
                    "and compared bit for bit; distinct = (shape, pipeline, threads, tuning)", min_eval=500)
