"""C08 scratch allocator."""
from vlib import *


def run(k):
    T = scale(k, 260, 2400)
    jobs = [
        Job("alloc", "alloc.cc", "x86_default", link=WRAP_ALLOC, args=dict(seed=k.seed, cases=scale(k, 60000, 1000000), huge=1), timeout=T),
        Job("alloc", "alloc.cc", "x86_default", link=WRAP_ALLOC, defs=["-DNDEBUG"], args=dict(seed=k.seed + 1, cases=scale(k, 60000, 1000000)), timeout=T),
        Job("alloc", "alloc.cc", "x86_default", san="asan", opt="-O1", link=WRAP_ALLOC, args=dict(seed=k.seed + 2, cases=scale(k, 20000, 300000)), timeout=T),
        Job("alloc", "alloc.cc", "aarch64", link=WRAP_ALLOC, args=dict(seed=k.seed + 3, cases=scale(k, 5000, 80000), max=1 << 19), timeout=T),
        Job("alloc", "alloc.cc", "armhf", link=WRAP_ALLOC, args=dict(seed=k.seed + 4, cases=scale(k, 5000, 80000), max=1 << 19), timeout=T),
    ]
    k.go(jobs)
    return k.finish("commits", "cases",
                    "random histories of reserve/commit/release on one or two allocators, with the memory they obtain "
                    "recorded (and placed against inaccessible pages); every block's alignment, extent, disjointness, "
                    "stability and contents are checked; distinct = block-size histories", min_eval=1000)
