"""Storage: every block of memory the library takes is given back (L02)."""
import glob
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "own_main.cpp"), [])] + [(f, []) for f in sorted(glob.glob(os.path.join(E.REPO, "src/mathic/*.cpp"))) if not f.endswith("/main.cpp")]
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Slots = {0,1,2}
  Blocks = {1}
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION Spec
CONSTANTS
  Slots = {0,1}
  Blocks = {%s}
INVARIANTS OwnedOnce NothingLost
PROPERTY RefinesStorage
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    return E.build(ctx.work, "own", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    ctx.models([("StorageModel", "StorageModel", MODEL_CFG % ("1,2,3,4,5" if T else "1,2,3,4"))], workers=2)
    rng = ctx.rng("own")
    sc = []
    for k in range(800 if T else 60):
        lines = ["@ w%d" % k, "M %d %d" % (rng.randrange(3), rng.randrange(8))]
        weights = [rng.choice([0, 1, 1, 3, 6]) for _ in range(9)]
        weights[0] += 2
        two = rng.random() < 0.5
        across = rng.choice([1, 1, 4])
        for _ in range(rng.choice([0, 3, 10, 30, 60])):
            o = rng.choices("XMDCV", [30, 1, .6, across, across])[0]
            a, b = rng.randrange(3 if two else 1), rng.randrange(3)
            if o == "X":
                lines.append("X %d %d %d %d" % (a, rng.choices(range(9), weights)[0], rng.randrange(100), rng.randrange(100)))
            elif o == "M":
                lines.append("M %d %d" % (a, rng.randrange(24)))
            elif o == "C":
                lines.append("C %d %d %d" % (a, b, rng.randrange(40)))
            elif o == "V":
                lines.append("V %d %d" % (a, b))
            else:
                lines.append("D %d" % a)
        sc.append(("w%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "StorageTrace", TRACE_CFG, [], tag="w", batch_events=20000)
    ctx.assumptions = ["memory is taken with the operators new and new[]", "single-threaded use", "comparisons and copies do not throw; computing pair data may"]
