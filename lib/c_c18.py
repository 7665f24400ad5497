"""C18 resources returned and bounded."""
from vlib import *

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]
LINK = WRAP_ALLOC + WRAP_SCHED


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    for i, cfg in enumerate(ALL):
        arm = cfg in ARM
        jobs.append(Job("leak", "leak.cc", cfg, opt="-O1", defs=["-DBD=0", "-DFEW_PIPES"] + (["-DNDEBUG"] if i % 2 else []), extra_src=SRC, link=LINK,
                        args=dict(seed=k.seed * 30 + i, cases=scale(k, 300 if arm else 4000, 6000 if arm else 120000), mac=300000 if arm else 1200000), timeout=T, cores=2))
        if arm:
            jobs.append(Job("leak-meta", "leak.cc", cfg, opt="-O1", defs=["-DBD=0", "-DFEW_PIPES", "-DGEMMLOWP_USE_META_FASTPATH"], extra_src=SRC, link=LINK,
                            args=dict(seed=k.seed * 30 + 10 + i, cases=scale(k, 150, 4000), mac=300000), timeout=T, cores=2))
    # LeakSanitizer sees what the counters do not (malloc, pthread objects)
    for i, cfg in enumerate(X86):
        jobs.append(Job("leak-lsan", "leak.cc", cfg, opt="-O1", san="asan", defs=["-DBD=0", "-DFEW_PIPES"], extra_src=SRC, link=LINK,
                        args=dict(seed=k.seed * 30 + 20 + i, cases=scale(k, 900, 20000), mac=600000), timeout=T, cores=2))
    k.go(jobs)
    return k.finish(["histories", "repeated_products", "legacy_rounds"], "cases",
                    "histories of products over one to three contexts and the legacy interface, counting scratch allocations, threads "
                    "and every operator new; everything must be back after destruction and nothing new may be acquired by products "
                    "seen before; LeakSanitizer in addition; distinct = (contexts, shapes, limits) of a history", min_eval=2000)
