"""Divisor finders: script generation and checks (D01-D05, D07, D08, D09)."""
import os
import random
import re

import engine as E

UNITS = [(os.path.join(E.HARN, "div_main.cpp"), [])] + [
    (os.path.join(E.HARN, "div_part.cpp"), ["-DPART=%d" % k]) for k in range(12)]

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Ids = {1}
  Vars = 1
  Exps = {0}
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""

BIG = 2**31 - 1


class Gen:
    def __init__(self, rng, sid, nv, maxe, off=0, opts="", anti=False):
        # anti: every element has the same degree, so that equal elements are the only divisors of each other
        # and a search that overlooks one element has no other to report
        self.anti = anti and nv >= 2
        self.r, self.nv, self.maxe, self.off = rng, nv, maxe, off
        self.lines = ["@ %s nv=%d%s" % (sid, nv, (" " + opts) if opts else "")]
        self.id = 0
        self.top = 0
        self.seen = []

    def mono(self):
        r = self.r
        if self.anti:
            m = [self.off] * self.nv
            if self.nv == 2:
                k = r.randint(0, self.maxe)
                return [self.off + k, self.off + self.maxe - k]
            if self.seen and r.random() < 0.4:
                m = list(r.choice(self.seen))
                a, b = r.sample(range(self.nv), 2)
                if m[a] > self.off:
                    m[a] -= 1
                    m[b] += 1
                return m
            for _ in range(self.maxe if self.maxe < 60 else 60):
                m[r.randrange(self.nv)] += 1
            return m
        if self.seen and r.random() < 0.25:      # repeat or perturb
            m = list(r.choice(self.seen))
            if m and r.random() < 0.8:
                v = r.randrange(self.nv)
                m[v] = max(self.off, min(BIG, m[v] + r.choice([-1, 1, 1])))
            return m
        if self.nv > 8:                          # sparse
            m = [self.off] * self.nv
            for _ in range(r.randint(1, 4)):
                m[r.randrange(self.nv)] = self.off + r.randint(0, self.maxe)
            return m
        return [self.off + r.randint(0, self.maxe) for _ in range(self.nv)]

    def query(self):
        r = self.r
        if not self.seen or r.random() < 0.3:
            return self.mono()
        a = r.choice(self.seen)
        k = r.random()
        if k < 0.3:
            m = list(a)
        elif k < 0.6:
            b = r.choice(self.seen)
            m = [max(x, y) for x, y in zip(a, b)]
        elif k < 0.75:
            b = r.choice(self.seen)
            m = [min(x, y) for x, y in zip(a, b)]
        else:
            m = list(a)
        if m and r.random() < 0.5:
            v = r.randrange(self.nv)
            m[v] = max(0, min(BIG, m[v] + r.choice([-1, 1])))
        return m

    def s(self, m):
        self.top = max([self.top] + list(m))
        return " ".join(map(str, m))

    def op(self, name, m=None, lim=None):
        self.lines.append(" ".join(x for x in [name, None if lim is None else str(lim), None if m is None else self.s(m)] if x))

    def insert(self, m=None):
        self.id += 1
        m = m or self.mono()
        self.seen.append(m)
        if len(self.seen) > (150 if self.anti else 60):
            self.seen.pop(self.r.randrange(30))
        self.lines.append("I %d %s" % (self.id, self.s(m)))

    def insert_range(self, k):
        parts = []
        for _ in range(k):
            self.id += 1
            m = self.mono()
            self.seen.append(m)
            parts.append("%d %s" % (self.id, self.s(m)))
        self.lines.append("%s %d %s" % (self.r.choice("Rr"), k, " ".join(parts)))

    def lim(self):
        return self.r.choice([0, 0, 0, 1, 2, 3, 5])

    def step(self, kind):
        r = self.r
        if kind == "ins":
            self.insert()
        elif kind == "range":
            self.insert_range(r.choice([0, 1, 2, 3, 5, 8]))
        elif kind == "div":
            self.op(r.choice("DDdi"), self.query())
        elif kind == "alldiv":
            self.op(r.choice("Aa"), self.query(), self.lim())
        elif kind == "allmul":
            self.op(r.choice("Mm"), self.query(), self.lim())
        elif kind == "all":
            self.op(r.choice("FfLl"), None, self.lim())
        elif kind == "size":
            self.op("S")
        elif kind == "rmul":
            self.op(r.choice("XXx"), self.query())
        elif kind == "relem":
            self.op("E", r.choice(self.seen) if self.seen and r.random() < 0.75 else self.query())
        elif kind == "rebuild":
            self.op("B")
        elif kind == "mtf":
            if r.random() < 0.5:
                self.op("G", self.query())
            else:
                self.lines.append("g %d" % r.randrange(50))
        elif kind == "clear":
            self.op("C")
        elif kind == "relabel":
            k = r.random()
            if k < 0.4:
                self.op("W", self.query())
            elif k < 0.8:
                self.op(r.choice(["WA", "WM"]), self.query(), self.lim())
            elif k < 0.9:
                self.op("WF", None, self.lim())
            else:
                self.op("WI", None, r.randrange(50))
        elif kind == "dd":        # query, change, same query: what remembered answers would get wrong
            q = self.query()
            self.op("D", q)
            k = r.random()
            if k < 0.35:
                self.op("X", r.choice(self.seen) if self.seen else q)
            elif k < 0.6:
                self.insert(list(self.query()))
            elif k < 0.75:
                self.op("E", r.choice(self.seen) if self.seen else q)
            elif k < 0.9:
                self.op("B")
            else:
                self.op("C")
            self.op(r.choice("Dd"), q)

    def finish(self):
        if self.anti:
            qs = list(self.seen)
            self.r.shuffle(qs)
            for m in qs[:40]:
                self.op(self.r.choice("DDdi"), m)
                if self.r.random() < 0.2:
                    self.op(self.r.choice("AM"), m, 0)
        self.op("S")
        self.op("F", None, 0)
        self.op("L")
        for _ in range(3):
            self.op("D", self.query())
        self.op("A", self.query(), 0)
        self.op("M", self.query(), 0)

    def text(self):
        if self.top > 127:                       # exponents that not every configuration has
            h = self.lines[0]
            self.lines[0] = h.replace("cfg=", "cfg=!byte+") if "cfg=" in h else h + " cfg=!byte"
        return "\n".join(self.lines) + "\n"


PROFILES = {
    # op weights; the D0x check draws from its own profile
    "D01": {"ins": 8, "range": 1, "div": 12, "rmul": 1.2, "rebuild": 0.4, "relem": 0.4, "mtf": 0.3},
    "D02": {"ins": 8, "range": 1, "alldiv": 6, "allmul": 6, "rmul": 0.8, "rebuild": 0.4, "relem": 0.3},
    "D03": {"ins": 9, "range": 1, "rmul": 3, "size": 1, "all": 1, "div": 1, "allmul": 1, "rebuild": 0.3},
    "D04": {"ins": 8, "range": 2, "all": 4, "size": 3, "rmul": 1, "rebuild": 1, "mtf": 1.5, "relem": 0.5, "div": 1, "clear": 0.15, "alldiv": .5},
    "D05": {"ins": 5, "range": .5, "dd": 5, "div": 3, "rmul": 1, "rebuild": 0.7, "relem": 0.6, "alldiv": 1, "allmul": .5, "clear": .1},
    "D07": {"ins": 10, "range": 1, "all": 3, "div": 4, "alldiv": 2, "rmul": 0.5, "rebuild": 0.3, "relem": .3, "size": .5},
    "D10": {"ins": 8, "range": .7, "relabel": 5, "all": 1, "div": 3, "alldiv": 1.5, "allmul": 1.5, "rmul": 1, "relem": .5, "rebuild": .8, "mtf": .7, "dd": .5},
    "D08": {"ins": 7, "range": .5, "relem": 5, "size": 1.5, "all": 1, "div": 2, "alldiv": 1, "rmul": .3, "rebuild": .3, "dd": .7},
}


def random_scripts(prop, seed, n, length, tag="r"):
    out = []
    w = PROFILES[prop]
    kinds, weights = list(w), list(w.values())
    for k in range(n):
        rng = random.Random("%s/%s/%d/%d" % (prop, tag, seed, k))
        nv, maxe, off = rng.choice([(1, 6, 0), (1, 40, 0), (2, 2, 0), (2, 4, 0), (2, 9, 0), (3, 2, 0), (3, 4, 0), (3, 12, 0),
                                    (4, 3, 0), (5, 2, 0), (6, 1, 0), (2, 5, 1000), (3, 3, BIG - 3), (2, 2000000000, 0),
                                    (12, 3, 0), (35, 2, 0)])
        if nv > 8 and prop == "D02":
            pass
        ln = int(length * rng.choice([0.3, 0.6, 1, 1, 1.5]))
        if nv > 20:
            ln = ln // 2
        anti = rng.random() < 0.35 and off == 0
        if anti:
            nv, maxe = rng.choice([(2, 12), (2, 40), (2, 150), (3, 4), (3, 12), (4, 3), (5, 4)])
        g = Gen(rng, "%s%d" % (tag, k), nv, maxe, off, opts="ord=%d" % rng.choice([0, 0, 1, 2, 3]), anti=anti)
        if rng.random() < 0.3:                  # start large: several tree levels, list cut-offs
            if rng.random() < 0.5:
                g.insert_range(rng.choice([10, 40, 90]))
            else:
                for _ in range(rng.choice([10, 40, 90])):
                    g.insert()
        for kind in rng.choices(kinds, weights, k=ln):
            g.step(kind)
        g.finish()
        out.append((g.lines[0].split()[1], g.text()))
    return out


def large_scripts(prop, seed, n):
    """Hundreds and thousands of elements: deep trees, long lists, many growths of every array."""
    out = []
    w = PROFILES[prop]
    kinds, weights = list(w), list(w.values())
    for k in range(n):
        rng = random.Random("%s/large/%d/%d" % (prop, seed, k))
        anti = rng.random() < 0.5
        nv, maxe = rng.choice([(2, 400), (3, 60), (5, 30), (8, 12)] if anti else [(3, 30), (5, 9), (10, 4), (20, 6), (4, 1000000)])
        g = Gen(rng, "large%d" % k, nv, maxe, opts="ord=%d" % rng.choice([0, 0, 1, 2, 3]), anti=anti)
        N = rng.choice([300, 600, 1100] if anti and nv == 2 else [300, 700, 1100, 2100, 4300])
        while g.id < N:
            if rng.random() < 0.3:
                for _ in range(10):
                    g.insert()
            else:
                g.insert_range(rng.choice([20, 70, 129]))
            if rng.random() < 0.3:
                g.step(rng.choices(kinds, weights)[0])
        for kind in rng.choices(kinds, weights, k=20):
            g.step(kind)
        g.finish()
        out.append(("large%d" % k, g.text()))
    return out


def sorted_long_scripts(seed, n):
    """D07: long sorted lists, so that searches pass several of their order checks."""
    out = []
    for k in range(n):
        rng = random.Random("D07long/%d/%d" % (seed, k))
        anti = rng.random() < 0.6
        nv = rng.choice([2, 2, 3]) if anti else rng.choice([1, 2, 2, 3])
        top = rng.choice([30, 150, 300]) if anti else rng.choice([5, 30, 300])
        g = Gen(rng, "long%d" % k, nv, top, opts="ord=%d cfg=list+-sort" % rng.choice([0, 0, 1, 2, 3]), anti=anti)
        N = rng.choice([34, 35, 36, 37, 69, 70, 71, 72, 106, 120])
        if rng.random() < 0.5:
            g.insert_range(N)
        else:
            for _ in range(N):
                g.insert()
        g.op("L")
        if anti:
            for m in g.seen:
                g.op(rng.choice("Ddi"), m)
                if rng.random() < 0.3:
                    g.op("A", m, 0)
        for _ in range(25):
            g.op(rng.choice("Ddi"), g.query())
        for _ in range(4):
            g.op("A", g.query(), g.lim())
        for _ in range(rng.randint(0, 6)):
            g.insert()
        g.op("X", g.query())
        g.op("L")
        g.finish()
        out.append(("long%d" % k, g.text()))
    return out


# ------------------------------------------------ scripts generated by TLC from the specification

GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Ids = {1,2,3,4,5,6}
  Vars = %d
  Exps = {%s}
  Depth = %d
  Muts = {%s}
VIEW GenView
CHECK_DEADLOCK FALSE
"""
RE_SCR = re.compile(r'^<<"SCRIPT", "(.*)">>$')


def spec_scripts(work, stats, tag, nv, exps, depth, muts, queries, simulate=None, seed=1):
    """Runs DivFinderGen with TLC and turns each behaviour into an operation script.
    After the last change, every query over the whole domain is asked."""
    cfg = GEN_CFG % (nv, ",".join(map(str, exps)), depth, ",".join('"%s"' % m for m in muts))
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(seed)]
    r = E.tlc(work, "DivFinderGen", cfg, workers=1, heap="2g", timeout=300, args=args, tag="gen")
    if not r.ok and not (simulate and r.rc == 0):
        raise E.CheckError("script generation failed:\n" + r.out[-2000:])
    import itertools
    dom = [list(t) for t in itertools.product(exps, repeat=nv)]
    res, seen = [], set()
    for line in r.out.splitlines():
        m = RE_SCR.match(line)
        if not m:
            continue
        s = m.group(1)
        if s in seen:
            continue
        seen.add(s)
        ops = s.split(";")
        ops = [o for o in ops if o]
        sid = "%s%d" % (tag, len(res))
        lines = ["@ %s nv=%d" % (sid, nv)] + ops
        for q in queries:
            if q in "SL":
                lines.append(q)
            elif q == "F":
                lines += ["F 0", "f 1"]
            elif q in "Ddi":
                lines += ["%s %s" % (q, " ".join(map(str, m))) for m in dom]
            elif q in "AM":
                lines += ["%s 0 %s" % (q, " ".join(map(str, m))) for m in dom]
        res.append((sid, "\n".join(lines) + "\n"))
    stats["states"] += r.distinct
    stats["transitions"] += r.generated
    return res


SIM_UNITS = [(os.path.join(E.HARN, "divsim_main.cpp"), [])]
SIM_TRACE_CFG = TRACE_CFG
SIM_MODEL_CFG = """SPECIFICATION MDSpec
CONSTANTS
  Ids = {1,2,3,4}
  Vars = 2
  Exps = {%s}
INVARIANTS HoldsMinimal QueriesAgree
CHECK_DEADLOCK FALSE
CONSTRAINT FewEver
"""
MODEL_CFG = """SPECIFICATION DFSpec
CONSTANTS
  Ids = {%s}
  Vars = 2
  Exps = {0,1}
INVARIANT QueriesAgree
CHECK_DEADLOCK FALSE
"""


def sim_scripts(rng, n, tag):
    out = []
    for k in range(n):
        nv, maxe, off = rng.choice([(1, 6, 0), (2, 2, 0), (2, 4, 0), (2, 9, 0), (3, 2, 0), (3, 4, 0), (3, 12, 0), (4, 3, 0), (5, 2, 0), (6, 1, 0), (2, 60, 0), (3, 3, BIG - 3), (12, 3, 0), (35, 2, 0)])
        g = Gen(rng, "%s%d" % (tag, k), nv, maxe, off)
        mode = rng.choice(["mix", "down", "anti"])
        for j in range(rng.choice([15, 30, 60])):
            m = None
            if mode == "down" and g.seen and rng.random() < 0.5:     # smaller and smaller: each insertion makes others redundant
                m = [max(off, x - rng.choice([0, 0, 1, 2])) for x in rng.choice(g.seen[-8:])]
            elif mode == "anti":                                     # constant degree: nothing is redundant
                m = [off + rng.randint(0, maxe) for _ in range(nv)]
                m[0] = max(0, min(BIG, off + 2 * maxe - sum(x - off for x in m[1:])))
            g.insert(m)
            if rng.random() < 0.6:
                g.lines[-1] = "J" + g.lines[-1][1:]
            for _ in range(rng.choice([0, 1, 1, 2])):
                o = rng.choice(["D", "D", "d", "A", "S", "F", "L"])
                if o in "Dd":
                    g.op(o, g.query())
                elif o == "A":
                    g.op(rng.choice("Aa"), g.query(), g.lim())
                elif o == "F":
                    g.op(rng.choice("Ff"), None, g.lim())
                else:
                    g.op(o)
        g.lines += ["S", "F 0", "f 0", "L"]
        out.append(("%s%d" % (tag, k), g.text()))
    return out


def check_sim(ctx):
    T = ctx.thorough
    exe = sim_driver(ctx)
    ctx.models([("MinDivFinder", "MinDivFinder", SIM_MODEL_CFG % ("0,1,2" if T else "0,1,2"))], workers=2)
    rng = ctx.rng("sim")
    s = spec_scripts(ctx.work, ctx.stats, "g", 2, [0, 1, 2] if T else [0, 1], 4, ["I"], "SFLD")
    s = [(i, t.replace("I ", "J ") if rng.random() < 0.6 else t) for i, t in s]
    lim = 6000 if T else 400
    if len(s) > lim:
        s = rng.sample(s, lim)
    ctx.conform(exe, s, "MinDivFinderTrace", SIM_TRACE_CFG, ["max=8", "cfg=min"], tag="g")
    ctx.conform(exe, sim_scripts(rng, 1200 if T else 130, "r"), "MinDivFinderTrace", SIM_TRACE_CFG, ["max=%d" % (24 if T else 12)], tag="r")
    ctx.assumptions = ["the models are built with consistent options (no sorting together with moving to the front; removals enabled when minimising)", "single-threaded use"]


def sim_driver(ctx):
    return E.build(ctx.work, "divsim", SIM_UNITS)


def driver(ctx, replay=None):
    if ctx.prop == "D09":
        return sim_driver(ctx)
    return E.build(ctx.work, "div", UNITS)


def trace_cfg(module):
    return TRACE_CFG


KD_CFG = """SPECIFICATION Spec
CONSTANTS
  Exps = {%s}
  MaxIns = %d
  MaxLive = %d
  Leaves = {1,2}
  MaskModes = {%s}
  Sorts = {%s}
  Caches = {TRUE}
  Autos = {TRUE,FALSE}
  Calcs <- SomeCalcs
  Queries <- Mons
VIEW View
INVARIANTS Answers Counted CacheLive TillPositive InOrder MasksCurrent
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
LIST_CFG = """SPECIFICATION Spec
CONSTANTS
  Exps = {0,1}
  MaxIns = %d
  MaxLive = %d
  Steps = {%s}
  Calcs <- SomeCalcs
VIEW View
INVARIANTS Answers InOrder MasksCurrent TillPositive
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
KDGEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Exps = {0,1,2}
  MaxIns = 9
  MaxLive = %d
  Leaves = {1,2}
  MaskModes = {"none"}
  Sorts = {FALSE}
  Caches = {TRUE}
  Autos = {TRUE,FALSE}
  Calcs <- OneCalc
  Queries <- Mons
  LeafSize = %d
  Auto = %s
  MaxLevel = %d
VIEW GenView
CONSTRAINT Shallow
CHECK_DEADLOCK FALSE
"""


def list_models(T):
    return [("list", "ListImpl", LIST_CFG % ((4, 4, "2,3") if T else (3, 3, "2")))]


def impl_models(T):
    all3, both = '"none","entry","tree"', "TRUE,FALSE"
    jobs = [("KD-tree, %s" % w, "KDImpl", KD_CFG % a) for w, a in (
        ("tree masks", ("0,1", 3, 3, '"tree"', "TRUE")), ("no masks", ("0,1,2", 3 if T else 2, 3, '"none"', "TRUE")))]
    if T:
        jobs += [("KD-tree, all masks", "KDImpl", KD_CFG % ("0,1", 3, 3, all3, both)),
                 ("KD-tree, unsorted", "KDImpl", KD_CFG % ("0,1,2", 2, 2, all3, both)),
                 ("KD-tree, long runs", "KDImpl", KD_CFG % ("0,1,2", 14, 6, all3, both), ["-simulate", "num=100", "-depth", "40"])]
    return jobs


def kd_scripts(ctx, limit, closing):
    """Ways to and out of every small state of KDImpl, per leaf size and with and without automatic rebuilds."""
    T, res = ctx.thorough, []
    for leaf in (1, 2):
        for auto in ("TRUE", "FALSE"):
            found = ctx.generate("KDGen", KDGEN_CFG % (4 if T else 3, leaf, auto, 7 if T else 6), limit, "transitions, leaf %d, rebuilds %s" % (leaf, auto))
            cfg = "tree+leaf%d+%s" % (leaf, "rb1" if auto == "TRUE" else "norb")
            for k, s in enumerate(found):
                sid = "K%d%s%d" % (leaf, auto[0], k)
                lines = ["@ %s nv=2 cfg=%s" % (sid, cfg)] + [o for o in s.split(";") if o]
                for q in closing:
                    lines += [q] if q in "SL" else ["F 0"] if q == "F" else [
                        "%s %s%d %d" % (q, "0 " if q in "AM" else "", a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
                res.append((sid, "\n".join(lines) + "\n"))
    return res


KDCLOSING = {"D01": "D", "D02": "AM", "D03": "SFM", "D04": "SF", "D05": "D", "D08": "SFD", "D10": "F"}

# per property: how TLC-generated scripts are shaped (variables, exponents, depth, changes, closing queries)
SPECGEN = {
    "D01": [("g", 2, [0, 1], 4, ["I", "X"], "Di"), ("h", 1, [0, 1, 2], 4, ["I", "X", "B"], "dD"), ("k", 1, [0, 1, 2], 2, ["R"], "Dd")],
    "D02": [("g", 2, [0, 1], 4, ["I", "X"], "AM"), ("h", 1, [0, 1, 2], 4, ["I", "E"], "AM")],
    "D03": [("g", 2, [0, 1], 4, ["I", "X"], "SFL")],
    "D04": [("g", 2, [0, 1], 4, ["I", "E", "B"], "SFL"), ("h", 1, [0, 1], 5, ["I", "X", "B", "C"], "SFL"), ("k", 1, [0, 1], 3, ["I", "R", "C"], "SFL")],
    "D05": [("g", 1, [0, 1, 2], 4, ["I", "X", "D", "E"], "D"), ("h", 2, [0, 1], 3, ["I", "X", "D", "B", "C", "E"], "DA")],
    "D07": [("g", 2, [0, 1], 4, ["I", "X"], "LD"), ("h", 1, [0, 1, 2], 4, ["I", "E"], "LDA"), ("k", 1, [0, 1, 2], 2, ["I", "R"], "LD")],
    "D10": [("g", 2, [0, 1], 4, ["I", "X", "W"], "SFD"), ("h", 1, [0, 1, 2], 4, ["I", "W", "B", "E"], "FDA")],
    "D08": [("g", 2, [0, 1], 4, ["I", "E"], "SFD"), ("h", 1, [0, 1], 5, ["I", "E", "B"], "SFD")],
}


def check(ctx):
    prop = ctx.prop
    if prop == "D09":
        return check_sim(ctx)
    exe = driver(ctx)
    ctx.models([("DivFinder", "DivFinder", MODEL_CFG % ("1,2,3,4" if ctx.thorough else "1,2,3"))] + (impl_models(ctx.thorough) if prop in KDCLOSING else []) + (list_models(ctx.thorough) if prop != "D05" else []), workers=2)
    rnd = random.Random("%s/%d" % (prop, ctx.seed))
    scripts = []
    for tag, nv, ex, depth, muts, qs in SPECGEN.get(prop, []):
        s = spec_scripts(ctx.work, ctx.stats, tag, nv, ex, depth + (1 if ctx.thorough and len(muts) <= 3 else 0), muts, qs)
        limit = 12000 if ctx.thorough else 350
        if len(s) > limit:
            s = rnd.sample(s, limit)
        scripts += s
    opts = ["max=8"]
    if prop == "D07":
        opts = ["cfg=list+-sort"]
    ctx.conform(exe, scripts, "DivFinderTrace", TRACE_CFG, opts, tag="g")
    if prop in KDCLOSING:
        sc = kd_scripts(ctx, 2500 if ctx.thorough else 50, KDCLOSING[prop])
        ctx.conform(exe, sc, "DivFinderTrace", TRACE_CFG, ["max=8"], tag="K")
    n = 1200 if ctx.thorough else 110
    sc = random_scripts(prop, ctx.seed, n, 60)
    ctx.conform(exe, sc, "DivFinderTrace", TRACE_CFG, ["max=%d" % (24 if ctx.thorough else 16)] if prop != "D07" else opts, tag="r")
    sc = large_scripts(prop, ctx.seed, 60 if ctx.thorough else 8)
    ctx.conform(exe, sc, "DivFinderTrace", TRACE_CFG, ["max=6"] if prop != "D07" else opts, tag="b")
    if prop in ("D07", "D01", "D02"):
        sc = sorted_long_scripts(ctx.seed, 200 if ctx.thorough else 24)
        ctx.conform(exe, sc, "DivFinderTrace", TRACE_CFG, ["max=8"], tag="l")
    ctx.assumptions = ["the configuration's comparison and divisibility hooks are consistent (a total order on monomials in which no monomial comes before its divisors; component-wise divisibility)",
                       "single-threaded use"]
