"""C19 scratch allocation failure."""
from vlib import *

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    for i, cfg in enumerate(ALL):
        arm = cfg in ARM
        for nd in (0, 1):
            jobs.append(Job("oom%d" % nd, "oom.cc", cfg, opt="-O1", defs=["-DBD=0", "-DFEW_PIPES"] + (["-DNDEBUG"] if nd else []), extra_src=SRC, link=WRAP_ALLOC,
                            args=dict(seed=k.seed * 30 + 2 * i + nd, cases=scale(k, 60 if arm else 900, 800 if arm else 12000), mac=300000 if arm else 900000), timeout=T, cores=2))
    jobs.append(Job("oom-asan", "oom.cc", "x86_sse4", opt="-O1", san="asan", defs=["-DBD=0", "-DFEW_PIPES", "-DNDEBUG"], extra_src=SRC, link=WRAP_ALLOC,
                    args=dict(seed=k.seed * 30 + 15, cases=scale(k, 150, 2000), mac=500000), timeout=T, cores=2))
    k.go(jobs)
    return k.finish(["injected_failures", "normal_runs"], "failure_points",
                    "every scratch allocation of generated histories made to fail in turn (once, and from then on) in a child process, on "
                    "the caller's and the workers' threads, with and without assertions; each child's end is classified; distinct = "
                    "(history, failing allocation)", min_eval=1000)
