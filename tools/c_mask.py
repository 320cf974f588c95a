"""Divisor masks: D06."""
import itertools
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "mask_main.cpp"), []), (os.path.join(E.REPO, "src/mathic/DivMask.cpp"), [])]
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1}
  Vars = 1
  Exps = {0}
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION MSpec
CONSTANTS
  Slots = {1, 2}
  Vars = 2
  Exps = {0, 1%s}
INVARIANTS Transitive Reflexive
PROPERTY LoweringMonotone
CHECK_DEADLOCK FALSE
"""
BITS_CFG = """SPECIFICATION BSpec
CONSTANTS
  Vars = %d
  Exps = {%s}
  TotalBits = %d
  Wrap = %d
  CollSize = %d
INVARIANTS BitCount Sound SoundLower ExactExtended
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    return E.build(ctx.work, "mask", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def coll(ms):
    return "%d %s" % (len(ms), " ".join(str(x) for m in ms for x in m))


def scripts(ctx, n):
    out = []
    for k in range(n):
        rng = ctx.rng("mask", k)
        nv, top, cfg = rng.choice([(0, 0, ""), (1, 8, ""), (1, 40, ""), (1, 250, ""), (1, 32000, "!uchar"), (2, 3, ""), (2, 9, ""), (2, 100, ""),
                                   (3, 4, ""), (3, 20, ""), (5, 6, ""), (7, 30, ""), (16, 5, ""), (31, 4, ""), (32, 4, ""), (33, 4, ""), (40, 3, ""), (70, 2, ""),
                                   (2, 2**31 - 1, "!uchar+!short"), (1, 2**31 - 1, "!uchar+!short"), (2, 255, "uchar"), (1, 32767, "short")])
        low = rng.choice([0, 0, 0, max(0, top - 3)]) if top else 0
        seen = []

        def mono():
            if seen and rng.random() < 0.45:
                m = list(rng.choice(seen))
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if nv:
                        v = rng.randrange(nv)
                        m[v] = min(top, max(0, m[v] + rng.choice([-1, 1, 1, 2, rng.randint(-top, top)])))
            elif nv > 10:
                m = [low] * nv
                for _ in range(rng.randint(0, 6)):
                    m[rng.randrange(nv)] = rng.randint(low, top)
            else:
                m = [rng.randint(low, top) for _ in range(nv)]
            seen.append(m)
            if len(seen) > 40:
                seen.pop(0)
            return m
        L = ["@ m%d nv=%d%s" % (k, nv, " cfg=" + cfg if cfg else "")]
        for ph in range(rng.randint(1, 4)):
            if ph or rng.random() < 0.6:
                c = rng.random()
                if c < 0.15:
                    L.append("default")
                else:
                    size = rng.choice([0, 1, 1, 2, 3, 5, 10, 30])
                    L.append("%s %s" % (rng.choice(["rebuild", "rebuildx"]), coll([mono() for _ in range(size)])))
            for s in range(1, 6):
                L.append("mask %d %s" % (s, " ".join(map(str, mono()))))
            for _ in range(rng.choice([10, 25])):
                o = rng.choices(["mask", "remask", "reset", "lower", "copy", "can", "row"], [3, 2, 0.7, 2.5, 0.7, 5, 1.2])[0]
                a, b = rng.randint(1, 5), rng.randint(1, 5)
                if o in ("mask", "remask"):
                    L.append("%s %d %s" % (o, a, " ".join(map(str, mono()))))
                elif o == "reset":
                    L.append("reset %d" % a)
                elif o == "row":
                    t = [mono() for _ in range(4)] + [rng.choice(seen) for _ in range(6)]
                    t += [[max(x, y) for x, y in zip(rng.choice(seen), rng.choice(seen))] for _ in range(4)]
                    L.append("row %d %s" % (a, coll(t)))
                else:
                    L.append("%s %d %d" % (o, a, b))
        out.append(("m%d" % k, "\n".join(L) + "\n"))
    return out


def exhaustive(ctx):
    """every pair of a small grid, for the default calculator and every small collection it can be built for"""
    out = []
    rng = ctx.rng("grid")
    for nv, top, off in [(1, 5, 0), (2, 2, 0), (1, 40, 0), (2, 2, 7), (1, 255, 0)] + ([(3, 1, 0), (2, 4, 0), (1, 128, 0)] if ctx.thorough else []):
        grid = [list(m) for m in itertools.product(range(off, top + off + 1), repeat=nv)] if top + off <= 255 else [[x] for x in range(256)]
        colls = [None, []] + [list(c) for n in (1, 2) for c in itertools.combinations(grid, n)]
        lim = 60 if ctx.thorough else 12
        if len(colls) > lim:
            colls = colls[:2] + rng.sample(colls[2:], lim - 2)
        if len(grid) > 60:
            colls = colls[:4]
        for ci, c in enumerate(colls):
            L = ["@ x%d_%d_%d_%d nv=%d" % (nv, top, off, ci, nv)]
            if c is not None:
                L.append("rebuild " + coll(c))
            for i, m in enumerate(grid):
                L.append("mask 1 " + " ".join(map(str, m)))
                L.append("row 1 " + coll(grid))
                if len(grid) < 12:
                    for m2 in grid:
                        L.append("reset 2")
                        L.append("lower 2 1")
                        L.append("mask 3 " + " ".join(map(str, m2)))
                        L.append("lower 2 3")
                        L.append("row 2 " + coll(grid))
            out.append((L[0].split()[1], "\n".join(L) + "\n"))
    return out


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    jobs = [("DivMask", "DivMask", MODEL_CFG % (", 2" if T else "")),
            ("bits v2 b4", "DivMaskBits", BITS_CFG % (2, "0, 1, 2", 4, 8, 2)),
            ("bits v3 b2", "DivMaskBits", BITS_CFG % (3, "0, 1", 2, 8, 2)),
            ("bits v1 b5 wrap", "DivMaskBits", BITS_CFG % (1, "0, 1, 2, 3, 4, 5, 6, 7", 5, 8, 3))]
    if T:
        jobs += [("bits v2 b5", "DivMaskBits", BITS_CFG % (2, "0, 1, 2, 3", 5, 4, 2)),
                 ("bits v3 b4", "DivMaskBits", BITS_CFG % (3, "0, 1", 4, 4, 3))]
    ctx.models(jobs, workers=2, par=2)
    ctx.conform(exe, exhaustive(ctx), "DivMaskTrace", TRACE_CFG, ["max=2"] if not T else [], tag="x")
    ctx.conform(exe, scripts(ctx, 4000 if T else 350), "DivMaskTrace", TRACE_CFG, [] if T else ["max=2"], tag="r")
    ctx.assumptions = ["exponents are non-negative and fit the exponent type", "masks made before a rebuild are not compared afterwards (documented)",
                       "single-threaded use"]
