"""Lifetimes of the objects given to the divisor finders and the priority queues: L01."""
import c_div
import c_pq

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  Places = {1}
  Values = {1}
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
ARRAY_CFG = """SPECIFICATION Spec
CONSTANTS
  Places <- PlacesDef
  Values = {1,2}
  Room = %d
INVARIANTS NoStuck Exact
PROPERTY RefinesLifetime
CHECK_DEADLOCK FALSE
"""


def trace_cfg(module):
    return TRACE_CFG


def driver(ctx, replay=None):
    c = replay["configuration"]
    return c_div.driver(ctx) if c.startswith(("list-", "tree-")) else c_pq.driver(ctx)


def life(scripts):
    """The same scripts with the recording of objects switched on."""
    out = []
    for sid, text in scripts:
        head, rest = text.split("\n", 1)
        out.append((sid, head + " life=1\n" + rest))
    return out


def check(ctx):
    T = ctx.thorough
    ctx.models([("EntryArray", "EntryArray", ARRAY_CFG % (4 if T else 3))], workers=2)
    div, pq = c_div.driver(ctx), c_pq.driver(ctx)
    rng = ctx.rng("life")
    n = 20 if T else 1
    # divisor finders: all mixes of operations
    sc = []
    for prop, cnt in (("D03", 12), ("D04", 16), ("D08", 10), ("D05", 8)):
        sc += c_div.random_scripts(prop, ctx.seed, cnt * n, 30, tag="l" + prop)
    ctx.conform(div, life(sc), "LifetimeTrace", TRACE_CFG, ["cfg=-obj", "max=%d" % (16 if T else 6)], tag="d", batch_events=20000)
    # priority queues
    sc = []
    for prop in ("Q01", "Q02", "Q03", "Q04", "Q05"):
        for k in range(6 * n):
            sc.append(c_pq.random_script(rng, prop, "%s%d" % (prop, k), rng.choice([10, 20, 40])))
    ctx.conform(pq, life(sc), "LifetimeTrace", TRACE_CFG, ["cfg=own", "max=%d" % (20 if T else 6)], tag="q", batch_events=20000)
    ctx.assumptions = ["copying an entry does not throw", "single-threaded use"]
