"""C13 ARM meta GEMM."""
from vlib import *

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    for cfg in ("aarch64", "armhf"):
        for out in (0, 1, 2):
            for api in (0, 1):
                jobs.append(Job("meta%d%d" % (api, out), "meta_gemm.cc", cfg, opt="-O1", defs=["-DAPI=%d" % api, "-DOUT=%d" % out],
                                args=dict(seed=k.seed * 10, cases=scale(k, 700, 20000), huge=0 if api else scale(k, 8, 60)), timeout=T))
        jobs.append(Job("fastpath", "eight.cc", cfg, defs=["-DMETA", "-DGEMMLOWP_USE_META_FASTPATH"], opt="-O1", extra_src=SRC, link=WRAP_SCHED,
                        args=dict(seed=k.seed * 10 + 1, cases=scale(k, 500, 15000), mac=100000), timeout=T))
        jobs.append(Job("fastpath-conc", "eight.cc", cfg, defs=["-DMETA", "-DGEMMLOWP_USE_META_FASTPATH"], opt="-O1", extra_src=SRC, link=WRAP_SCHED,
                        args=dict(seed=k.seed * 10 + 2, cases=scale(k, 25, 600), mac=50000, conc=1), timeout=T, cores=2))
    # AddressSanitizer runs under qemu-user for 32-bit ARM only; leak detection does not work there
    env = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1"}
    for api in (0, 1):
        jobs.append(Job("meta%d0" % api, "meta_gemm.cc", "armhf", opt="-O1", san="asan_nofp", defs=["-DAPI=%d" % api, "-DOUT=0"], env=env, flags=["-fno-inline"],
                        args=dict(seed=k.seed * 10 + 3, cases=scale(k, 150, 2000), huge=0), timeout=T))
    k.go(jobs)
    return k.finish(["products", "calls"], "cases",
                    "generated products through every meta entry point and executor, and through the legacy entry points with the "
                    "fast path compiled in, with operands, results and scratch memory placed against inaccessible pages; every "
                    "entry compared with the exact result; distinct = (shape, entry point, thread count)", min_eval=1000)
