"""Priority queues: Q01..Q05."""
import os
import re

import engine as E

UNITS = [(os.path.join(E.HARN, "pq_main.cpp"), [])] + [(os.path.join(E.HARN, "pq_part.cpp"), ["-DPART=%d" % k]) for k in range(8)]

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Vals = {1}
  MaxPush = 1
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""

MODEL_CFG = """SPECIFICATION PQSpec
CONSTANTS
  Vals = {1,2}
  MaxPush = %d
INVARIANTS Conserved NoMergeWithoutDedup ShownIsMax
PROPERTY PopOrder
CHECK_DEADLOCK FALSE
"""

HEAP_CFG = """SPECIFICATION Spec
CONSTANTS
  Vals = {1,2,3}
  MaxPush = %d
  Dedup = %s
VIEW View
INVARIANTS IsHeap NoDoubles
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
TOUR_CFG = """SPECIFICATION Spec
CONSTANTS
  Vals = {1,2,3}
  MaxPush = %d
VIEW View
INVARIANTS Shape LastLeafIsLastPlayer PopEnabled
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
GEO_CFG = """SPECIFICATION Spec
CONSTANTS
  Vals = {%s}
  MaxPush = %d
  MaxRange = %d
  Dedup = %s
  Factors = {%s}
  MinBs = {%s}
  Bases = {%s}
VIEW View
INVARIANTS Sorted BackIsLast Counted FrontInOrder Growing
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
GEOGEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Vals = {1,2,3}
  MaxPush = %d
  MaxRange = 2
  Dedup = %s
  Factors = {1}
  MinBs = {1}
  Bases = {2}
  TrackFront = %s
  PreMerge = %s
VIEW GenView
CHECK_DEADLOCK FALSE
"""


def impl_models(T):
    """The implementations' own data structures, as refinements of a merging queue."""
    tf = ("TRUE", "FALSE")
    jobs = [("PQ refines MergingPQ", "PQRefines", MODEL_CFG.replace("PopOrder", "PopOrder MergingQueue") % (5 if T else 4))]
    jobs += [("Heap dedup=" + d, "HeapImpl", HEAP_CFG % (7 if T else 5, d)) for d in tf]
    jobs += [("TourTree", "TourImpl", TOUR_CFG % (7 if T else 5))]
    for d in tf:
        jobs.append(("Geobucket dedup=" + d, "GeoImpl",
                     GEO_CFG % ("1,2", 6 if T else 4, 3 if T else 2, d, "1,2", "1,2", "2")))
        if T:
            jobs.append(("Geobucket deep dedup=" + d, "GeoImpl", GEO_CFG % ("1,2,3,4", 40, 3, d, "1,2,4", "1,2,3", "2,3"),
                         ["-simulate", "num=600", "-depth", "60"]))
    return jobs


GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Vals = {%s}
  MaxPush = 99
  Depth = %d
  Ops = {%s}
  Decs = {%s}
VIEW GenView
CHECK_DEADLOCK FALSE
"""
RE_SCR = re.compile(r'^<<"SCRIPT", "(.*)">>$')


def driver(ctx, replay=None):
    return E.build(ctx.work, "pq", UNITS)


def trace_cfg(module):
    return TRACE_CFG


# per property: weights of the operations in random histories
WEIGHTS = {
    "Q01": dict(p=6, r=2, o=6, t=2, d=1, e=1, O=0.3),
    "Q02": dict(p=6, r=2, o=4, t=1, d=2, O=0.3, a=0.5, s=0.5, c=0.1),
    "Q03": dict(p=4, r=1, o=1.5, t=1, d=7, O=0.2, s=0.3, a=0.3),
    "Q04": dict(p=4, r=1, o=3, e=1, s=3, a=3, A=1, c=0.5, d=1, O=0.5, t=1),
    "Q05": dict(p=5, r=1, o=3, d=1, m=1, s=1, a=1, c=0.2, t=1, e=1, O=0.3),
}


def header(rng, sid, extra=""):
    return "@ %s gb=%d mb=%d%s" % (sid, rng.choice([2, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3, 4]), extra)


def random_script(rng, prop, sid, n, big=False):
    w = WEIGHTS[prop]
    names = list(w)
    nv = rng.choice([2, 3, 5, 8, 20, 1000])
    lines = [header(rng, sid)]
    phase = rng.choice(["mix", "mix", "fill", "waves"])
    for k in range(n):
        ws = [w[x] for x in names]
        if phase == "fill":
            up = k < n * 0.6
        elif phase == "waves":
            up = (k // 12) % 2 == 0
        else:
            up = None
        if up is not None:
            ws = [a * (3 if (x in "pr") == up and x in "proOd" else 1) for x, a in zip(names, ws)]
        o = rng.choices(names, ws)[0]
        if o == "p":
            lines.append("p %d" % rng.randrange(nv))
        elif o == "r":
            m = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8]) if not big else rng.choice([0, 1, 3, 10, 33])
            lines.append("r " + " ".join(str(rng.randrange(nv)) for _ in range(m)))
        elif o == "O":
            lines.append("O %d" % rng.choice([2, 3, 5, 9, 100]))
        elif o == "d":
            lines.append("d %d" % rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(nv) + 1]))
        elif o in "aA":
            lines.append("%s %d" % (o, rng.choice([0, 0, 0, 1, 2, 3])))
        else:
            lines.append(o)
    lines += ["a 0", "s", "O 100000", "e"]
    return sid, "\n".join(lines) + "\n"


def large_script(rng, prop, sid):
    """Thousands of entries: every array grows many times, geobuckets use many buckets; then most of it comes out again."""
    nv = rng.choice([30, 5000, 10 ** 6])
    lines = ["@ %s gb=%d mb=%d" % (sid, rng.choice([2, 2, 3, 4, 7]), rng.choice([1, 2, 4, 10, 33]))]
    tail = {"Q01": ["t"], "Q02": ["d 3", "a 0", "d 0"], "Q03": ["d 0", "d 1", "d 7", "d %d" % nv, "s"], "Q04": ["s", "a 0", "a 3", "e"], "Q05": ["m", "s"]}[prop]
    n, top = 0, rng.choice([300, 800, 1300, 2600])
    while n < top:
        if rng.random() < 0.3:
            m = rng.choice([7, 20])
            lines += ["p %d" % rng.randrange(nv) for _ in range(m)]
        else:
            m = rng.choice([1, 40, 129, 257, 600])
            lines.append("r " + " ".join(str(rng.randrange(nv)) for _ in range(m)))
        n += m
        if rng.random() < 0.3:
            lines += ["O %d" % rng.choice([1, 5, 40])]
        if rng.random() < 0.5:
            lines.append(rng.choice(tail))
    lines += tail + ["O %d" % (n // 3)] + tail + ["p %d" % rng.randrange(nv) for _ in range(9)]
    if prop == "Q04" and rng.random() < 0.5:
        lines += ["c", "s", "e", "r " + " ".join(str(rng.randrange(nv)) for _ in range(300)), "p 4", "s"]
    return sid, "\n".join(lines + ["a 0", "s", "O 100000", "e"]) + "\n"


def spec_scripts(ctx, tag, vals, depth, ops, decs, limit, rng):
    cfg = GEN_CFG % (",".join(map(str, vals)), depth, ",".join('"%s"' % o for o in ops), ",".join(map(str, decs)))
    r = E.tlc(ctx.work, "PQGen", cfg, workers=1, heap="2g", timeout=300, tag="gen")
    if not r.ok:
        raise E.CheckError("script generation failed:\n" + r.out[-2000:])
    ctx.stats["states"] += r.distinct
    ctx.stats["transitions"] += r.generated
    found = sorted(set(m.group(1) for m in map(RE_SCR.match, r.out.splitlines()) if m))
    if not found:
        raise E.CheckError("no script generated")
    ctx.notes["generated_behaviours_" + tag] = len(found)
    if len(found) > limit:
        found = rng.sample(found, limit)
    res = []
    for k, s in enumerate(found):
        ops_ = [o for o in s.split(";") if o]
        sid = "%s%d" % (tag, k)
        res.append((sid, "\n".join([header(rng, sid)] + ops_ + ["s", "a 0", "O 100", "e"]) + "\n"))
    return res


def geo_scripts(ctx, limit):
    """Ways to and out of every state of GeoImpl, per kind of geobucket."""
    res = []
    for d in ("TRUE", "FALSE"):
        for t in ("TRUE", "FALSE"):
            for p in ("TRUE", "FALSE"):
                found = ctx.generate("GeoGen", GEOGEN_CFG % (8 if ctx.thorough else 6, d, t, p), limit, "transitions, collect %s, front %s, premerge %s" % (d, t, p))
                cfg = "geo+%s+%s+%s" % ("dd" if d == "TRUE" else "!dd", "tf" if t == "TRUE" else "nf", "pm" if p == "TRUE" else "np")
                for k, s in enumerate(found):
                    sid = "G%s%s%s%d" % (d[0], t[0], p[0], k)
                    ops_ = [o for o in s.split(";") if o]
                    res.append((sid, "\n".join(["@ %s gb=2 mb=1 cfg=%s" % (sid, cfg)] + ops_ + ["s", "a 0", "O 100", "e"]) + "\n"))
    return res


SPECGEN = {
    "Q01": [("g", [1, 2, 3], 6, ["p", "o"], [0]), ("h", [1, 2], 5, ["p", "r", "o", "r3"], [0])],
    "Q02": [("g", [1, 2], 7, ["p", "o", "d"], [0, 1]), ("h", [1, 2, 3], 4, ["p", "r", "o", "r3"], [0])],
    "Q03": [("g", [1, 2, 3], 6, ["p", "d"], [0, 1]), ("h", [1, 2], 6, ["p", "d", "o"], [0, 1])],
    "Q04": [("g", [1, 2], 6, ["p", "o", "c"], [0]), ("h", [1, 2], 5, ["p", "r", "r0", "o", "c"], [0])],
    "Q05": [("g", [1, 2], 7, ["p", "o", "m"], [0])],
}
CFGS = {"Q02": "cfg=dd", "Q03": "cfg=!stlset", "Q05": "cfg=heap,tour,stlset"}


def check(ctx):
    prop = ctx.prop
    exe = driver(ctx)
    T = ctx.thorough
    ctx.models(impl_models(T), workers=2)
    rng = ctx.rng("gen")
    scripts = []
    for tag, vals, depth, ops, decs in SPECGEN[prop]:
        scripts += spec_scripts(ctx, tag, vals, depth + (1 if T else 0), ops, decs, 8000 if T else 200, rng)
    base = [CFGS[prop]] if prop in CFGS else []
    ctx.conform(exe, scripts, "PQTrace", TRACE_CFG, base + ["max=%d" % (40 if T else 24)], tag="g")
    if prop != "Q05":
        sc = geo_scripts(ctx, 3000 if T else 40)
        ctx.conform(exe, sc, "PQTrace", TRACE_CFG, (["cfg=dd"] if prop == "Q02" else []) + ["max=4"], tag="G")
    rng = ctx.rng("random")
    sc = [random_script(rng, prop, "r%d" % k, rng.choice([20, 40, 80])) for k in range(1500 if T else 150)]
    ctx.conform(exe, sc, "PQTrace", TRACE_CFG, base + ["max=%d" % (40 if T else 24)], tag="r")
    sc = [random_script(rng, prop, "b%d" % k, rng.choice([150, 300, 600]), True) for k in range(120 if T else 10)]
    ctx.conform(exe, sc, "PQTrace", TRACE_CFG, base + ["max=%d" % (30 if T else 12)], tag="b")
    rng = ctx.rng("large")
    sc = [large_script(rng, prop, "l%d" % k) for k in range(60 if T else 6)]
    ctx.conform(exe, sc, "PQTrace", TRACE_CFG, base + ["max=%d" % (30 if T else 6)], tag="l")
    ctx.assumptions = ["the configuration's comparison is a total preorder", "single-threaded use",
                       "a range pushed into a geobucket is sorted in decreasing order, without equal entries when merging is on"]
