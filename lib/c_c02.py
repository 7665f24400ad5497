"""C02 output stages."""
from vlib import *


def run(k):
    jobs = []
    for cfg in ALL + MSA:
        for g in range(5):
            defs = ["-DGROUP=%d" % g]
            if cfg == "x86_sse4" or cfg in MSA:     # neither has int8 casts or per-channel exponents
                defs.append("-DIS_SSE")
            if cfg in ("x86_sse4", "aarch64", "armhf"):
                defs.append("-DNO_TRUNC")
            arm = cfg not in X86
            jobs.append(Job("stages_g%d" % g, "stages.cc", cfg, defs=defs,
                            args=dict(seed=k.seed, cases=scale(k, 3000 if arm else 16000, 30000 if arm else 250000),
                                      mac=200000 if arm else 400000), timeout=scale(k, 200, 2400), cores=2))
    k.go(jobs)
    return k.finish("pipelines_run", "cases",
                    "random products through 33 output pipelines (every stage alone and in compositions of up to six) "
                    "on seven back ends; distinct = (shape, order, pipeline) per executable; every entry whose "
                    "documented expression does not overflow is compared with an independent 64-bit evaluation",
                    min_eval=1000)
