"""Hash table: H01, H02."""
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "hash_main.cpp"), [])]
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  KeySet = {1}
  ValSet = {1}
  HandleSet = {1}
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION HSpec
CONSTANTS
  KeySet = {0,1,2,3%s}
  ValSet = {1,2}
  HandleSet = {1,2,3,4,5}
INVARIANTS OneEntryPerHandle KeyInItsClass
PROPERTIES Stable FirstWins
CHECK_DEADLOCK FALSE
"""
IMPL_CFG = """SPECIFICATION Spec
CONSTANTS
  Keys = {%s}
  Vals = {1,2}
  Handles = {1,2,3,4,5}
  Hashes = {"id","zero","even","high","rev"}
  AtEnd = %s
  Share = 2
  MaxBits = 4
VIEW View
INVARIANTS InItsChain NoDoubles CountRight Removable
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Keys = {%s}
  Vals = {1,2}
  Handles = {1,2,3,4,5,6}
  Hashes = {"id","zero","even","high","rev"}
  AtEnd = TRUE
  Share = 2
  MaxBits = 4
  Mod = %d
  Fn = "%s"
VIEW GenView
CHECK_DEADLOCK FALSE
"""
HASHES = {"id": 0, "zero": 10, "even": 7, "high": 8, "rev": 9}


def driver(ctx, replay=None):
    return E.build(ctx.work, "hash", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def script(rng, prop, sid, n):
    bits = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 10, 10])
    dom = rng.choice([4, 12, 40, 150])
    mod = rng.choice([1000000, 1000000, max(2, dom // 2), max(2, dom // 3)])
    lines = ["@ %s bits=%d mod=%d hash=%d" % (sid, bits, mod, rng.randrange(7))]
    w = dict(i=10, f=6, r=2, w=1, I=0.6, F=0.5, R=0.3)
    if prop == "H02":
        w.update(x=4, Z=0.3, H=0.3)
    names, ws = list(w), list(w.values())
    for _ in range(n):
        o = rng.choices(names, ws)[0]
        if o == "i":
            lines.append("i %d %d" % (rng.randrange(dom), rng.randrange(1000)))
        elif o == "f":
            lines.append("f %d" % rng.randrange(dom + 3))
        elif o in "rx":
            lines.append("%s %d" % (o, rng.randrange(1000)))
        elif o == "w":
            lines.append("w %d %d" % (rng.randrange(1000), rng.randrange(1000)))
        elif o == "I":
            a = rng.randrange(dom)
            lines.append("I %d %d %d" % (a, a + rng.choice([3, 10, 30, 120]), rng.choice([1, 1, 2, 7])))
        elif o == "F":
            lines.append("F 0 %d 1" % (dom + 5))
        elif o == "Z":
            lines.append("Z %d" % rng.randrange(100))
        else:
            lines.append(o)
    lines += ["R", "F 0 %d 1" % (dom + 130)]
    return sid, "\n".join(lines) + "\n"


def spec_scripts(ctx, limit):
    """Every transition of HashImpl as a script; then the whole table is looked at, and again after it has grown."""
    res = []
    for fn, kind in HASHES.items():
        for mod in (100, 2):
            keys = "0,1,2,3,4" if mod == 2 or ctx.thorough else "0,1,2,3"
            for k, s in enumerate(ctx.generate("HashGen", GEN_CFG % (keys, mod, fn), limit, "transitions, hash %s, keys equal modulo %d" % (fn, mod))):
                sid = "s%s%d-%d" % (fn, mod, k)
                lines = ["@ %s bits=%d mod=%d hash=%d" % (sid, k % 3, mod, kind)] + [o for o in s.split(";") if o]
                if ctx.prop == "H01":
                    lines = [o for o in lines if o[0] not in "XHZ"]
                res.append((sid, "\n".join(lines + ["F 0 6 1", "R", "I 4 40 1", "F 0 45 1", "R"]) + "\n"))
    return res


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    ctx.models([("HashTable", "HashTable", MODEL_CFG % (",4" if T else ""))] +
               [("HashTable chains, at the " + w, "HashImpl", IMPL_CFG % ("0,1,2,3" if T else "0,1,2", b)) for w, b in (("end", "TRUE"), ("front", "FALSE"))],
               workers=2)
    ctx.conform(exe, spec_scripts(ctx, 3000 if T else 60), "HashTableTrace", TRACE_CFG, [], tag="s")
    rng = ctx.rng("random")
    sc = [script(rng, ctx.prop, "r%d" % k, rng.choice([15, 40, 80])) for k in range(6000 if T else 900)]
    ctx.conform(exe, sc, "HashTableTrace", TRACE_CFG, [], tag="r")
    # growth far beyond the initial size
    sc = []
    for k in range(40 if T else 8):
        lines = ["@ g%d bits=%d mod=1000000 hash=%d" % (k, rng.choice([0, 3, 10]), rng.choice([0, 3, 5, 2]))]
        at = 0
        for _ in range(5):
            st, to = rng.choice([1, 3]), at + rng.choice([50, 150, 300])
            lines += ["I %d %d %d" % (at, to, st), "F %d %d 1" % (max(0, at - 40), to + 5), "i %d 3" % rng.randrange(to), "r %d" % rng.randrange(500)]
            if ctx.prop == "H02" and rng.random() < 0.5:
                lines.append(rng.choice(["H", "x 3", "x 77"]))
            at = to
        lines += ["F 0 %d 3" % at, "R"]
        sc.append(("g%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "HashTableTrace", TRACE_CFG, [], tag="g")
    # thousands of entries
    sc = []
    for k in range(16 if T else 3):
        n = rng.choice([20000, 8000, 5000]) if T and k < 3 else rng.choice([2100, 3500, 5000])
        lines = ["@ b%d bits=%d mod=1000000 hash=%d" % (k, rng.choice([0, 1, 4, 10, 12]), rng.choice([0, 5, 7, 8])),
                 "I 0 %d 1" % n, "F 0 %d 1" % (n + 50), "i 5 5", "r 77", "i 99 1"]
        if ctx.prop == "H02":
            lines += ["x 99", "x %d" % (n - 1), "X 0", "i %d 8" % (n - 1)] + rng.choice([[], ["H", "F 0 %d 1" % n, "I 0 %d 7" % n]])
        sc.append(("b%d" % k, "\n".join(lines + ["I %d %d 1" % (n, n + n // 4), "F 0 %d 3" % (2 * n)]) + "\n"))
    ctx.conform(exe, sc, "HashTableTrace", TRACE_CFG, [] if T else ["max=2"], tag="b")
    ctx.assumptions = ["hash and keysEqual of the configuration are consistent", "reset is called when all entries have been removed, as documented",
                       "single-threaded use"]
