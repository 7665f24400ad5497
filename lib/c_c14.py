"""C14 ARM meta streams and transforms."""
from vlib import *


def run(k):
    T = scale(k, 300, 2400)
    n = scale(k, 12000, 400000)
    jobs = []
    for cfg in ("aarch64", "armhf"):
        for i, opt in enumerate(("-O1", "-O2", "-O3") if cfg == "aarch64" else ("-O1", "-Os")):
            jobs.append(Job("xform" + opt, "meta_xform.cc", cfg, opt=opt, args=dict(seed=k.seed * 10 + i, cases=n), timeout=T))
    env = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1"}
    jobs.append(Job("xform-asan", "meta_xform.cc", "armhf", opt="-O1", san="asan_nofp", env=env,
                    args=dict(seed=k.seed * 10 + 5, cases=n // 8), timeout=T))
    k.go(jobs)
    return k.finish(["packed_elements", "transformed_elements"], "packs",
                    "packing streams of every lane count and leftover, row and column major, and every transform single- and "
                    "multi-threaded, with buffers against inaccessible pages; every packed byte, sum and transformed element "
                    "compared with the defining formula; distinct = (stream, lanes, count, stride)", min_eval=100000)
