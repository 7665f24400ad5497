"""C09 legacy entry points."""
from vlib import *

SRC = ["$REPO/eight_bit_int_gemm/eight_bit_int_gemm.cc"]


def run(k):
    T = scale(k, 260, 2400)
    jobs = []

    def j(cfg, cases, conc=0, san="", opt="-O2", mac=300000, defs=()):
        jobs.append(Job("eight" + ("-conc" if conc else ""), "eight.cc", cfg, san=san, opt=opt, extra_src=SRC, link=WRAP_SCHED,
                        defs=defs, args=dict(seed=k.seed * 100 + len(jobs), cases=cases, conc=conc, mac=mac), timeout=T,
                        cores=2 if conc else 1))
    j("x86_default", scale(k, 9000, 100000))
    j("x86_sse4", scale(k, 9000, 100000))
    j("x86_avx2", scale(k, 9000, 100000))
    j("aarch64", scale(k, 700, 10000), mac=60000)
    j("armhf", scale(k, 700, 10000), mac=60000)
    j("x86_default", scale(k, 1500, 20000), san="asan", opt="-O1", mac=120000)
    j("x86_sse4", scale(k, 500, 8000), conc=1, mac=120000)
    j("x86_default", scale(k, 150, 2000), conc=1, san="tsan", opt="-O1", mac=60000)
    j("x86_default", scale(k, 150, 2000), conc=1, san="asan", opt="-O1", mac=60000)
    for cfg in ("x86_sse4", "x86_default"):
        jobs.append(Job("eight-wide", "eight.cc", cfg, opt="-O0", san="ubtrap" if cfg == "x86_default" else "", extra_src=SRC, link=WRAP_SCHED,
                        args=dict(seed=k.seed * 100 + 77, cases=0, wide=scale(k, 60, 1500)), timeout=T))
    k.go(jobs)
    return k.finish("calls", "cases",
                    "generated calls of both legacy entry points over all transpose flags, leading dimensions, offsets and "
                    "output parameters, alone and from 2-5 threads interleaved with SetMaxNumThreads and "
                    "FreePersistentResources; every result compared with the documented formula; distinct = (shape, "
                    "transposition, entry point)", min_eval=1000)
