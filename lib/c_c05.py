"""C05 concurrent products."""
from vlib import *


def run(k):
    jobs = []
    T = scale(k, 260, 2400)
    for cfg in X86:
        for s in range(scale(k, 1, 3)):
            jobs.append(Job("conc", "gemm_conc.cc", cfg, defs=["-DBD=0"] + (["-DNDEBUG"] if cfg == "x86_avx2" else []),
                            san="tsan", opt="-O1", link=WRAP_SCHED,
                            args=dict(seed=k.seed * 10 + s, cases=scale(k, 900, 9000), mac=500000), timeout=T, cores=3))
    for cfg in ALL6:
        arm = cfg not in X86
        jobs.append(Job("conc", "gemm_conc.cc", cfg, defs=["-DBD=0"] + (["-DFEW_PIPES"] if arm else []), link=WRAP_SCHED,
                        args=dict(seed=k.seed + 3, cases=scale(k, 150 if arm else 3000, 2000 if arm else 30000), mac=250000 if arm else 700000),
                        timeout=T, cores=3))
    k.go(jobs)
    return k.finish("concurrent_products", "cases",
                    "rounds of two to six application threads running products at once on contexts taken from a shared "
                    "pool (handed over between products), sharing operands and writing adjacent blocks of one result, "
                    "under ThreadSanitizer and injected delays; distinct = (threads, shapes, pipelines) of a round",
                    min_eval=500)
