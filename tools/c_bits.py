"""Bit triangle: B01."""
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "bits_main.cpp"), []), (os.path.join(E.REPO, "src/mathic/BitTriangle.cpp"), [])]
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANT MaxCols = 1
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION BSpec
CONSTANT MaxCols = %d
INVARIANT InTriangle
PROPERTIES OneBit NewColumnClear
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  MaxCols = 3
  Depth = %d
VIEW GenView
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    return E.build(ctx.work, "bits", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    ctx.models([("BitTriangle", "BitTriangle", MODEL_CFG % (5 if T else 4))], workers=2)
    rng = ctx.rng("gen")
    found = ctx.generate("BitTriangleGen", GEN_CFG % (7 if T else 5), 40000 if T else 3000, "all behaviours of this length", workers=2)
    sc = [("g%d" % k, "@ g%d every=1\n" % k + "\n".join(x for x in s.split(";") if x) + "\n") for k, s in enumerate(found)]
    ctx.conform(exe, sc, "BitTriangleTrace", TRACE_CFG, [], tag="g")
    sc = []
    for k in range(600 if T else 60):
        every = rng.random() < 0.3
        lines = ["@ r%d wrap=1%s" % (k, " every=1" if every else "")]
        start = rng.choice([0, 2, 5, 9]) if every else rng.choice([0, 2, 10, 30, 62, 63, 64, 65, 66, 127, 128, 129, 140, 254, 256, 300, 511, 1000])
        if start:
            lines.append("C %d" % start)
        hi = start + 10
        for _ in range(60 if every else 150):
            o = rng.choices(["s", "u", "b", "v", "c", "n"], [6, 6, 3, 3, 0.6, 0.4])[0]
            if o in "cn":
                lines.append(o)
                continue
            top = rng.random() < 0.5
            x = hi - 1 - rng.randrange(min(hi, 14)) if top else rng.randrange(hi)
            y = rng.choice([0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 511, rng.randrange(hi), rng.randrange(hi), x - 1])
            x, y = abs(x), abs(y)
            if rng.random() < 0.5 and o in "uv":
                x, y = y, x
            lines.append("%s %d %d%s" % (o, x, y, " %d" % rng.choice([1, 1, 0]) if o in "su" else ""))
            if rng.random() < 0.03:
                lines.append("A")
        sc.append(("r%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "BitTriangleTrace", TRACE_CFG, [], tag="r")
    ctx.assumptions = ["pairs are addressed within the columns that were added", "single-threaded use"]
