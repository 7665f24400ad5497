"""C12 accuracy of the transcendental functions."""
from vlib import *


def run(k):
    n = scale(k, 400000, 4000000)
    jobs = [
        Job("fp_func", "fp_func.cc", "x86_default", args=dict(seed=k.seed, cases=n), timeout=scale(k, 200, 1500)),
        Job("fp_func", "fp_func.cc", "x86_default", args=dict(seed=k.seed + 1, cases=n), timeout=scale(k, 200, 1500)),
        Job("fp_func", "fp_func.cc", "x86_default", san="asan", args=dict(seed=k.seed + 2, cases=n // 20), timeout=scale(k, 200, 1500)),
        Job("fp_func", "fp_func.cc", "aarch64", args=dict(seed=k.seed + 3, cases=n // 20), timeout=scale(k, 200, 1500)),
        Job("fp_func", "fp_func.cc", "armhf", args=dict(seed=k.seed + 4, cases=n // 20), timeout=scale(k, 200, 1500)),
    ]
    if k.thorough:
        for e in (1, 2, 3, 4):
            jobs.append(Job("fp_func_all32", "fp_func.cc", "x86_default", args=dict(exhaust=e), cores=8, timeout=1500))
    k.go(jobs)
    return k.finish("evaluations", "cases",
                    "every 16-bit input of 13 formats and random/edge 32-bit inputs of 29 formats, each compared with "
                    "double precision within the error of the documented interpolation; distinct = 32-bit inputs logged",
                    min_eval=1000000)
