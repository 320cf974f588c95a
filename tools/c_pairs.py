"""Pair queue: P01..P05."""
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "pairs_main.cpp"), [])]

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  MaxCols = 1
  Keys = {1}
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
RUNS_TRACE_CFG = TRACE_CFG.replace("MaxCols", "Most").replace("  Keys = {1}\n", "")
RUNS_CFG = """SPECIFICATION RSpec
CONSTANT Most = %d
INVARIANTS Counted TopsAgree SomeTop
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
MODEL_CFG = """SPECIFICATION PSpec
CONSTANTS
  MaxCols = %d
  Keys = {1,2}
INVARIANTS OncePopped PoppedGone OnlyAdded
PROPERTY NeverRetired
CHECK_DEADLOCK FALSE
"""
IMPL_CFG = """SPECIFICATION Spec
CONSTANTS
  MaxCols = %d
  Keys = {%s}
  Support = %s
INVARIANTS Glue TopIsMax DataCurrent NoStrayData CountOk
PROPERTIES Refines LoopEnds
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  MaxCols = %d
  Keys = {1,2}
  Support = %s
VIEW GenView
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    try:
        return E.build(ctx.work, "pairs", UNITS)
    except E.CheckError:
        # If only ranges of less than random access are not taken, that is for P04 to report and for the others to avoid.
        # If it is something else, this fails as well.
        return E.build(ctx.work, "pairs-nofwd", UNITS, flags=["-DNOFWD=1"])


def trace_cfg(module):
    return RUNS_TRACE_CFG if module == "PairRunsTrace" else TRACE_CFG


# weights: a add, x (y) add with a failing computation (comparison), o pop, t top, R retire, T retire index of the top, e n c q queries, O drain some, K empty columns
WEIGHTS = {
    "P01": dict(a=6, o=5, t=5, R=0.7, T=0.7, e=1),
    "P02": dict(a=6, o=6, R=1, T=1, e=2, O=0.5),
    "P03": dict(a=6, x=1, y=0.5, o=6, t=1, R=1, T=1.5, O=0.3),
    "P04": dict(a=6, K=0.6, o=3, R=0.5, T=0.3, n=4, c=3, e=1, q=1, t=0.5),
    "P05": dict(a=5, x=4, y=4, o=4, t=2, R=0.4, T=0.4, n=1, c=1, e=1),
}


def random_script(rng, prop, sid, n):
    w = WEIGHTS[prop]
    names, ws = list(w), list(w.values())
    nk = rng.choice([1, 2, 4, 10, 1000])
    ks = rng.randrange(10 ** 6)
    order = rng.choice(["rnd", "rnd", "col", "row", "-col", "mixed"])
    lines = ["@ %s it=%d fwd=%d" % (sid, rng.randrange(4), prop == "P04")]
    cols = 0

    def key(c, r):
        if order == "col":
            return c
        if order == "-col":
            return 1000 - c
        if order == "row":
            return r
        if order == "mixed":
            return (c * 7 + r * 3) % 11
        return rng.randrange(nk)
    density = rng.choice([0.2, 0.5, 0.9, 1.0])
    big = rng.random() < (0.35 if prop == "P04" else 0.2)
    if big:
        base = rng.choice([65530, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131072])
        lines.append("K %d" % base)
        cols = base
    for k in range(n):
        o = rng.choices(names, ws)[0]
        if o in "axy":
            if big:
                rows = set(rng.randrange(cols) for _ in range(rng.randrange(4)))
                rows |= set(r for r in range(max(0, cols - 5), cols) if rng.random() < density)
                rows |= set(r for r in (65533, 65534, 65535, 65536) if r < cols and rng.random() < 0.5)
            else:
                lo = max(0, cols - 14)
                rows = set(r for r in range(lo, cols) if rng.random() < density)
                if rng.random() < 0.1:
                    rows = set()
                elif rng.random() < 0.15 and cols:
                    rows = {rng.randrange(cols)}
            pre = "a" if o == "a" else "x 1" if o == "x" else "y %d" % rng.choice([1, 1, 1, 2, 3])
            lines.append(pre + "".join(" %d %d" % (r, key(cols, r)) for r in sorted(rows)))
            if o == "a":
                cols += 1
        elif o == "K":
            m = rng.choice([1, 2, 3])
            lines.append("K %d" % m)
            cols += m
        elif o == "O":
            lines.append("O %d" % rng.choice([3, 6, 20]))
        elif o == "R":
            if big and rng.random() < 0.3:
                lines.append("R %d" % rng.choice([65533, 65534, 65535, 65536, 65537, 65538]))
                continue
            lines.append("R %d" % (-rng.randint(1, min(cols, 8)) if rng.random() < 0.7 and cols else rng.randrange(cols + 1)))
        elif o == "q":
            lines.append("q %d" % (-rng.randint(1, 5)))
        elif o == "T":
            lines.append("T %d" % rng.randrange(2))
        else:
            lines.append(o)
    lines += ["n", "c"]
    if rng.random() < 0.7:
        lines += ["O 100000", "e", "n"]
    return sid, "\n".join(lines) + "\n"


def spec_scripts(ctx, cols, support, limit):
    """Every transition of PairsImpl (of more columns: some of them) as a script, with what is left drained at the end."""
    r = ctx.generate("PairGen", GEN_CFG % (cols, support), limit, "%d columns, retirement %s" % (cols, support), heads=True)
    return [("s%d%s%d" % (cols, support[0], k), "@ s%d%s%d it=%d fwd=%d%s\n%s\nn\nc\nt\nO 1000\ne\nn\n" % (
        cols, support[0], k, k % 4, ctx.prop == "P04", "" if support == "TRUE" else " cfg=noret", s.replace(";", "\n"))) for k, s in enumerate(r)]


def wide_script(rng, prop, sid):
    """Hundreds of columns, so that the queue of columns is large; some columns with hundreds of rows."""
    n = rng.choice([70, 130, 260])
    lines = ["@ %s it=%d fwd=%d" % (sid, rng.randrange(4), prop == "P04")]
    dens, nk = rng.choice([0.02, 0.05, 0.15]), rng.choice([3, 50, 10 ** 6])
    order = rng.choice(["rnd", "row", "col"])
    for c in range(n):
        rows = [r for r in range(c) if rng.random() < dens] if c % 50 != 49 else list(range(c))
        col = "".join(" %d %d" % (r, rng.randrange(nk) if order == "rnd" else r if order == "row" else c) for r in rows)
        k = rng.random()
        if prop in ("P03", "P05") and k < 0.1:
            lines.append(rng.choice(["x 1", "y 1", "y 2", "y 3", "y 5"]) + col)
        lines.append("A" + col)
        if k > 0.7:
            lines.append("O %d" % rng.choice([1, 2, 9]))
        if rng.random() < 0.03:
            lines.append(rng.choice(["R -%d" % rng.randint(1, 60), "T 0", "T 1"]))
        if rng.random() < 0.1:
            lines.append(rng.choice("nct"))
    lines += ["n", "c", "t", "O 60", "T 0", "T 1", "n", "R %d" % rng.randrange(n)]
    return sid, "\n".join(lines + ["O 100000" if dens < 0.1 else "O 300", "e", "n"]) + "\n"


def check(ctx):
    prop, T = ctx.prop, ctx.thorough
    exe = driver(ctx)
    ctx.models([("PairQueue", "PairQueue", MODEL_CFG % (4 if T else 3)),
                ("PairQueue columns", "PairsImpl", IMPL_CFG % ((4, "1,2", "TRUE") if T else (3, "1,2", "TRUE"))),
                ("PairQueue columns, no ties", "PairsImpl", IMPL_CFG % ((3, "1,2,3", "TRUE"))),
                ("PairQueue columns, no retirement", "PairsImpl", IMPL_CFG % ((4, "1,2", "FALSE") if T else (3, "1,2", "FALSE")))],
               workers=2)
    if prop == "P04":
        ctx.models([("PairQueue, runs of rows", "PairRuns", RUNS_CFG % (7 if T else 5))])
    sc = spec_scripts(ctx, 3, "TRUE", 1000) + spec_scripts(ctx, 4, "TRUE", 20000 if T else 250) + spec_scripts(ctx, 4, "FALSE", 5000 if T else 100)
    ctx.conform(exe, sc, "PairQueueTrace", TRACE_CFG, [], tag="s")
    rng = ctx.rng("random")
    n = 3000 if T else 320
    sc = [random_script(rng, prop, "r%d" % k, rng.choice([12, 25, 50])) for k in range(n)]
    ctx.conform(exe, sc, "PairQueueTrace", TRACE_CFG, [], tag="r")
    rng = ctx.rng("wide")
    sc = [wide_script(rng, prop, "w%d" % k) for k in range(40 if T else 4)]
    ctx.conform(exe, sc, "PairQueueTrace", TRACE_CFG, [] if T else ["max=4"], tag="w")
    if prop == "P04":      # more pairs than fit in 16 bits, in one column and in several
        sc = []
        for k in range(4 if T else 2):
            b = [66000, 65536, 65537, 131080][k]
            sc.append(("one%d" % k, "@ one%d cfg=!cmp\nK %d\nn\nL %d\nn\nc\nt\no\nn\nL %d\nO 50\nn\ne\nt\n" % (k, b, b, b - 3)))
            sc.append(("many%d" % k, "@ many%d cfg=!cmp\nK %d\n%sn\nc\nt\nO 30\nn\n%sO 40\nn\n" % (k, b if k else 300, "L 220\n" * 300, "L 3\n" * 5)))
        ctx.conform(exe, sc, "PairRunsTrace", RUNS_TRACE_CFG, [], tag="L")
    ctx.assumptions = ["rows of a column are given in weakly descending order without retired rows, as documented",
                       "the pair comparison is a total preorder; only in column additions do computations and comparisons throw", "single-threaded use"]
