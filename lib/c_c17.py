"""C17 thread limit and partition."""
from vlib import *

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    for i, cfg in enumerate(ALL):
        arm = cfg in ARM
        for s in range(2 if arm else 3):
            jobs.append(Job("thr%d" % s, "thr.cc", cfg, opt="-O1", defs=["-DBD=0"], extra_src=SRC, link=WRAP_SCHED,
                            args=dict(seed=k.seed * 30 + i * 3 + s, cases=scale(k, 700 if arm else 5000, 15000 if arm else 120000), mac=400000 if arm else 1200000 if s else 4000000),
                            timeout=T, cores=2))
    k.go(jobs)
    return k.finish(["entries_checked_once", "recorded_products", "history_products", "legacy_products"], "cases",
                    "products through the public entry points with a pool that takes written entries away after each task (so every "
                    "second write is seen), with the library's pool behind a recorder of running threads, and over histories of limits "
                    "and sizes watching thread creation; distinct = (shape, limit)", min_eval=100000)
