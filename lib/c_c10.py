"""C10 scalar fixed point."""
from vlib import *


def run(k):
    n = scale(k, 400000, 20000000)
    jobs = [
        Job("fp_scalar_all16", "fp_scalar.cc", "x86_default", opt="-O3",
            args=dict(seed=k.seed, cases=n, threads=8, full=1, pairs=1), cores=8, timeout=scale(k, 200, 1500)),
        Job("fp_scalar", "fp_scalar.cc", "x86_default", san="asan",
            args=dict(seed=k.seed + 1, cases=scale(k, 60000, 1500000), threads=1, full=0, pairs=0), timeout=scale(k, 200, 1500)),
        Job("fp_scalar", "fp_scalar.cc", "x86_default", opt="-O0",
            args=dict(seed=k.seed + 2, cases=scale(k, 60000, 1500000), threads=1, full=0, pairs=0), timeout=scale(k, 200, 1500)),
        Job("fp_scalar", "fp_scalar.cc", "aarch64",
            args=dict(seed=k.seed + 3, cases=scale(k, 30000, 500000), threads=1, full=0, pairs=0), timeout=scale(k, 200, 1500)),
        Job("fp_scalar", "fp_scalar.cc", "armhf",
            args=dict(seed=k.seed + 4, cases=scale(k, 30000, 500000), threads=1, full=0, pairs=0), timeout=scale(k, 200, 1500)),
    ]
    k.go(jobs)
    return k.finish("evaluations", "cases",
                    "all 2^32 operand pairs of each 16-bit binary primitive, all 16-bit values of each unary one, and "
                    "random plus edge 32-bit operands, each compared with a 64-bit evaluation; distinct = sampled "
                    "32-bit operand tuples", min_eval=1000000)
