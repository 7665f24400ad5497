"""C20 quantized arithmetic approximates real arithmetic."""
from vlib import *


def run(k):
    jobs = []
    for cfg in ALL6:
        arm = cfg not in X86
        jobs.append(Job("quant", "quant.cc", cfg, args=dict(seed=k.seed, cases=scale(k, 1500 if arm else 25000, 30000 if arm else 800000)), timeout=scale(k, 200, 2400)))
    jobs.append(Job("quant", "quant.cc", "x86_sse4", san="asan", args=dict(seed=k.seed + 7, cases=scale(k, 1500, 40000)), timeout=scale(k, 200, 2400)))
    jobs.append(Job("quant", "quant.cc", "x86_default", san="ubtrap", opt="-O0", args=dict(seed=k.seed + 8, cases=scale(k, 1000, 20000)), timeout=scale(k, 200, 2400)))
    k.go(jobs)
    return k.finish(["entries", "values", "ranges", "multipliers"], "cases",
                    "random real matrices and ranges through the documented quantization code and the library's fixed-point "
                    "pipeline (with and without bias and activation clamp); parameters, codes, multipliers and every result entry "
                    "judged in double precision; distinct = (shape, multiplier)", min_eval=1000000)
