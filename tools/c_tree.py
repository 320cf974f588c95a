"""Complete binary tree container: K01."""
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "tree_main.cpp"), [])]
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Slots = {0,1,2}
  Values = {1}
  MaxLen = 1
  MaxCap = 1
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION Spec
CONSTANTS
  Slots = {0,1}
  Values = {1,2}
  MaxLen = %d
  MaxCap = %d
INVARIANTS Fits OneTree
PROPERTY OneSlot
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Slots = {0,1}
  Values = {1,2}
  MaxLen = 9
  MaxCap = 9
  Depth = %d
VIEW GenView
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    return E.build(ctx.work, "tree", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    ctx.models([("ComTree", "ComTree", MODEL_CFG % ((4, 5) if T else (3, 4)))], workers=2)
    rng = ctx.rng("gen")
    found = ctx.generate("ComTreeGen", GEN_CFG % (5 if T else 4), 30000 if T else 1500, "all behaviours of this length", workers=2)
    sc = [("g%d" % k, "@ g%d every=1\n" % k + "\n".join(x for x in s.split(";") if x) + "\n") for k, s in enumerate(found)]
    ctx.conform(exe, sc, "ComTreeTrace", TRACE_CFG, ["max=%d" % (9 if T else 4)], tag="g")
    sc = []
    for k in range(400 if T else 60):       # past several growths, and back
        lines = ["@ r%d" % k]
        for _ in range(60):
            o = rng.choices("pPqwocgnymxfL", [6, 3, 2, 4, 3, .3, .5, .4, 1, 1, 1, 3, 2])[0]
            a, b = rng.randrange(3), rng.randrange(3)
            if o == "p":
                lines.append("p %d %d %d" % (a, rng.randrange(90), rng.choice([1, 1, 1, 2, 5, 15, 16, 17, 33])))
            elif o == "P":
                lines.append("P %d %d" % (a, rng.randrange(50)))
            elif o == "q":
                lines.append("q %d %d" % (a, rng.randrange(90)))
            elif o == "w":
                lines.append("w %d %d %d" % (a, 1 + rng.randrange(80), rng.randrange(90)))
            elif o == "o":
                lines.append("o %d %d" % (a, rng.choice([1, 1, 2, 3, 16, 40])))
            elif o == "n":
                lines.append("n %d %d" % (a, rng.choice([0, 1, 2, 3, 15, 16, 17, 40])))
            elif o == "y":
                lines.append("y %d %d %d" % (a, b, rng.choice([0, 0, 1, 5, 16, 33, 70])))
            elif o in "mx":
                lines.append("%s %d %d" % (o, a, b))
            elif o == "f":
                lines.append("f %d %d" % (a, rng.choice([0, 1, 2, 3, 15, 16, 17, 31, 32])))
            else:
                lines.append("%s %d" % (o, a))
        sc.append(("r%d" % k, "\n".join(lines) + "\n"))
    lines = ["@ nav"]                        # every small node, and pairs of them
    for n in range(1, 131 if T else 70):
        lines.append("v %d %d" % (n, (n * 7) % 13))
        for b in (1, n - 1, n, n + 1, 2 * n):
            if b > 0:
                lines.append("u %d %d" % (n, b))
    sc.append(("nav", "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "ComTreeTrace", TRACE_CFG, [], tag="r")
    ctx.assumptions = ["entries are read and written at nodes up to the last leaf", "fast indexes are used with entries whose size is a power of two, as documented", "single-threaded use"]
