"""C04 memory footprint and undefined behaviour."""
from vlib import *


def run(k):
    jobs = []
    T = scale(k, 260, 2400)
    for cfg in ALL6:
        arm = cfg not in X86
        for bd in (0, 1, 2):
            if (bd and cfg in X86) or (bd and cfg == "aarch64_dotprod"):
                continue
            jobs.append(Job("mem_bd%d" % bd, "gemm_mem.cc", cfg, defs=["-DBD=%d" % bd] + (["-DNDEBUG", "-DFEW_PIPES"] if bd else []),
                            link=WRAP_ALLOC,
                            args=dict(seed=k.seed, cases=scale(k, 3000 if arm else 30000, 15000 if arm else 150000),
                                      mac=250000 if arm else 600000), timeout=T, cores=2))
    for cfg in X86:
        jobs.append(Job("mem_heap", "gemm_mem.cc", cfg, defs=["-DBD=0"], san="asan", opt="-O1",
                        args=dict(seed=k.seed + 7, cases=scale(k, 8000, 80000), heap=1, mac=400000), timeout=T, cores=2))
        jobs.append(Job("mem_valgrind", "gemm_mem.cc", cfg, defs=["-DBD=0", "-DUSE_VG"] + ([] if cfg == "x86_sse4" else ["-DFEW_PIPES"]), opt="-O1", link=WRAP_ALLOC,
                        runner=["valgrind", "-q", "--error-exitcode=66", "--fair-sched=yes"],
                        args=dict(seed=k.seed + 9, cases=scale(k, 800, 8000), heap=1, mac=60000), timeout=T, cores=1))
    for cfg in MSA:
        jobs.append(Job("mem_msa", "gemm_exact.cc", cfg, defs=["-DBD=%d" % (cfg == "msa64"), "-DGUARDED"],
                        args=dict(seed=k.seed + 11, cases=scale(k, 1500, 15000), mac=250000, bigmac=1000000), timeout=T))
    for cfg in ARM:
        jobs.append(Job("mem_ub", "gemm_mem.cc", cfg, defs=["-DBD=0"] + (["-DFEW_PIPES"] if cfg == "armhf" else []), san="ubtrap", link=WRAP_ALLOC,
                        args=dict(seed=k.seed + 3, cases=scale(k, 800, 8000), mac=150000), timeout=T, cores=2))
    for cfg in ("x86_default", "x86_sse4"):
        for g in range(5):
            jobs.append(Job("stages_g%d" % g, "stages.cc", cfg,
                            defs=["-DGROUP=%d" % g] + (["-DIS_SSE", "-DNO_TRUNC"] if cfg == "x86_sse4" else []),
                            san="asan", opt="-O1",
                            args=dict(seed=k.seed + 5, cases=scale(k, 2500, 40000), mac=100000, safe=1), timeout=T))
    k.go(jobs)
    return k.finish(["products", "pipelines_run"], "cases",
                    "random products with operands, parameters, result and scratch against inaccessible pages, "
                    "read-only operands, and ASan/UBSan/memcheck with inaccessible padding; results compared under "
                    "different garbage in padding and scratch; distinct = (shape, pipeline, orders, guard side)",
                    min_eval=1000)
