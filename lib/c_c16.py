"""C16 kernel formats."""
import random
from vlib import *

# layouts of the kernels the library ships, of its tests, and of its documentation's example
CORE = [("U", 4, 2, "D", 3, 4, "D", 1), ("U", 4, 2, "W", 3, 4, "W", 1), ("U", 4, 2, "W", 1, 4, "W", 1), ("U", 4, 2, "W", 3, 4, "W", 2),
        ("U", 4, 2, "D", 3, 4, "D", 2), ("U", 8, 2, "W", 3, 4, "W", 1), ("U", 4, 16, "W", 1, 4, "W", 1), ("U", 4, 4, "W", 3, 4, "W", 2),
        ("S", 4, 16, "W", 1, 2, "W", 1), ("S", 4, 16, "W", 1, 4, "W", 1)]
EXTRA = [("U", 3, 4, "D", 3, 5, "D", 2), ("U", 1, 1, "D", 1, 1, "D", 1), ("U", 1, 1, "W", 7, 1, "D", 5), ("U", 4, 4, "G", 2, 4, "G", 3),
         ("U", 8, 8, "G", 1, 3, "W", 1), ("U", 1, 4, "D", 1, 4, "D", 1), ("U", 1, 4, "W", 4, 4, "W", 1), ("U", 2, 1, "D", 3, 3, "W", 1),
         ("U", 16, 16, "G", 1, 16, "G", 1), ("U", 5, 16, "D", 1, 7, "W", 1), ("U", 24, 2, "D", 1, 1, "W", 1), ("U", 1, 8, "W", 1, 17, "D", 1),
         ("S", 2, 2, "G", 3, 2, "D", 4), ("S", 3, 8, "D", 2, 5, "W", 1), ("S", 1, 1, "W", 1, 2, "W", 9), ("U", 8, 2, "W", 1, 8, "W", 3)]
INT8IN = [("I", 4, 16, "W", 1, 2, "W", 1), ("I", 4, 16, "W", 1, 4, "W", 1), ("I", 2, 16, "W", 1, 4, "W", 1)]


def rnd(g):
    while True:
        d = g.choice([1, 2, 4, 8, 16])
        f = []
        for _ in range(2):
            o = g.choice("DDWWG")
            w = d if o == "G" else g.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 12, 16])
            f.append((w, o, g.choice([1, 1, 2, 3, 4, 5, 6])))
        (lw, lo, lc), (rw, ro, rc) = f
        if lw * lc * rw * rc <= 700:
            return (g.choice("UUUS"), lw, d, lo, lc, rw, ro, rc)


def x(f, o):
    return "X(%s,%d)" % (",".join(str(v) for v in f), o)


def run(k):
    T = scale(k, 300, 2400)
    jobs = []
    g = random.Random(k.seed * 1234567 + 5)
    for ci, cfg in enumerate(ALL6):
        arm = cfg not in X86
        items = []
        # the shipped kernels themselves; int8 operands are only implemented for row-major lhs, column-major rhs
        for b in (0, 1, 2, 3, 4) if arm else (0, 1):
            items += ["Y(BD%d,%d)" % (b, o) for o in ((4, 5) if b == 2 else range(8) if k.thorough else (4, g.randrange(8)))]
        if cfg == "aarch64_dotprod":
            jobs += [Job("ship%d" % i, "fmt.cc", cfg, opt="-O1", defs=["-DWRAP_ALLOC", "-DFMTS=" + " ".join(items[i::2])], link=WRAP_ALLOC,
                         args=dict(seed=k.seed * 10 + i, cases=scale(k, 100, 800), mac=100000), timeout=T) for i in range(2)]
            continue
        for f in CORE:                      # specialised packing depends on the storage orders: all of them for shipped layouts
            for o in (range(8) if k.thorough else (4, 1, 2, 7) if arm else (4, 0, 3, 5)):
                items.append(x(f, o))
        for f in EXTRA:
            items.append(x(f, g.randrange(8)))
        if arm:
            items += [x(f, o) for f in INT8IN for o in (4, 5)]
        for _ in range(scale(k, 14, 200)):
            items.append(x(rnd(g), g.randrange(8)))
        g.shuffle(items)
        per = 9
        for i in range(0, len(items), per):
            san = "" if arm or i // per % 3 else "asan"
            jobs.append(Job("fmt%d" % (i // per), "fmt.cc", cfg, opt="-O1", san=san, defs=["-DWRAP_ALLOC", "-DFMTS=" + " ".join(items[i:i + per])], link=WRAP_ALLOC,
                            args=dict(seed=k.seed * 10 + i, cases=scale(k, 40 if arm else 150 if san else 400, 500 if arm else 5000), mac=100000 if arm else 400000), timeout=T))
    k.go(jobs)
    return k.finish(["entries"], "cases",
                    "products through a kernel of ours that reads packed operands by the documented layout (and through the reference "
                    "kernel), over the shipped layouts with every storage-order class and random layouts (cell depth 1..16 dividing 16, "
                    "any width, cells, order, signedness); every entry compared with the exact product; distinct = (format, shape, threads)",
                    min_eval=100000)
