"""C11 SIMD fixed point equals scalar per lane."""
from vlib import *


def run(k):
    jobs = []
    for cfg in ["x86_sse4", "x86_avx2", "aarch64", "armhf"] + MINI:
        arm = cfg not in X86
        for s in range(scale(k, 1, 4)):
            jobs.append(Job("fp_simd", "fp_simd.cc", cfg,
                            args=dict(seed=k.seed * 10 + s, cases=scale(k, 150000 if arm else 1200000, 1500000 if arm else 8000000)),
                            timeout=scale(k, 200, 1500)))
    k.go(jobs)
    return k.finish("evaluations", "cases",
                    "random and edge lane values (each lane drawn independently, neighbours extreme) through every "
                    "vector primitive and exp/tanh/logistic; every lane compared with the scalar operation",
                    min_eval=100000)
