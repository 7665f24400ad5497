"""C01 exact int32 GEMM."""
from vlib import *


def run(k):
    jobs = []
    plan = []
    for cfg in ALL6:
        for bd in (0, 1, 2, 3, 4, 5):
            if bd == 2 and cfg in X86:
                continue
            if bd > 3 and cfg in X86 and not k.thorough:    # no kernel of its own there
                continue
            if cfg == "aarch64_dotprod" and bd not in (0,):
                continue
            plan.append((cfg, bd))
    for cfg, bd in plan:
        arm = cfg not in X86
        n = scale(k, 700 if arm else 4000, 5000 if arm else 40000)
        shards = scale(k, 1, 2 if arm else 2)
        for s in range(shards):
            jobs.append(Job("exact_bd%d" % bd, "gemm_exact.cc", cfg, defs=["-DBD=%d" % bd],
                            args=dict(seed=k.seed * 100 + s, cases=n, mac=1500000 if arm else 4000000, bigmac=6000000 if arm else 60000000), timeout=260,
                            cores=2))
    for cfg in MSA:
        for bd in (0, 1, 3) if k.thorough else (0, 1):
            jobs.append(Job("exact_bd%d" % bd, "gemm_exact.cc", cfg, defs=["-DBD=%d" % bd],
                            args=dict(seed=k.seed * 100 + 50, cases=scale(k, 700, 6000), mac=1500000, bigmac=6000000), timeout=260))
    for cfg in X86 + ["aarch64"]:
        jobs.append(Job("big", "gemm_big.cc", cfg, args=dict(seed=k.seed, cases=scale(k, 300, 3000),
                        rows=300000000 if cfg == "x86_sse4" or (k.thorough and cfg in X86) else 0), timeout=260, cores=3))
        jobs.append(Job("bigub", "gemm_big.cc", cfg, san="ubtrap", opt="-O0", args=dict(seed=k.seed + 1, cases=scale(k, 60, 800)), timeout=260))
    # products whose packed blocks exceed 2^31 elements: 4..13 GB of memory each, so few at a time
    for cfg, h in ([(c, h) for c in X86 for h in (1, 2, 4, 8)] if k.thorough else [("x86_sse4", 1), ("x86_avx2", 2), ("x86_avx2", 4), ("x86_sse4", 8)]):
        jobs.append(Job("huge%d" % h, "gemm_big.cc", cfg, san="ubtrap" if h == 8 else "", args=dict(seed=k.seed, cases=0, huge=h), timeout=260, cores=4))
    k.go(jobs)
    return k.finish("gemms", "cases",
                    "random GEMM problems (shape classes, storage orders, strides, misalignment, operand extremes, "
                    "scalar/vector offsets, thread counts, cache tuning) on every kernel back end; distinct = "
                    "(shape, orders, offset form) per executable; every entry compared with an independent exact sum",
                    min_eval=1000)
