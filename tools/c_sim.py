"""The simulators: S01 queue models, S02 queue simulator, S03 divisor simulation."""
import os

import engine as E

PQ_UNITS = [(os.path.join(E.HARN, "pqsim_main.cpp"), [])] + [(os.path.join(E.REPO, "src", f), []) for f in
            ["pqsim/Simulator.cpp", "pqsim/Item.cpp", "pqsim/Model.cpp", "mathic/ColumnPrinter.cpp"]]
DIV_UNITS = [(os.path.join(E.HARN, "divsim2_main.cpp"), [])] + [(os.path.join(E.REPO, "src", f), []) for f in
             ["divsim/Simulation.cpp", "mathic/ColumnPrinter.cpp", "mathic/Timer.cpp", "mathic/DivMask.cpp"]]
END = """CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
SPAN_TRACE = "SPECIFICATION TraceSpec\nCONSTANTS\n  Values = {1}\n  MaxRun = 1\nVIEW TraceView\n" + END
SIM_TRACE = "SPECIFICATION TraceSpec\nCONSTANTS\n  Values = {1}\n  MaxEvents = 1\n  MaxRep = 1\nVIEW TraceView\n" + END
SPAN_CFG = """SPECIFICATION Spec
CONSTANTS
  Values = {1,2,3,4}
  MaxRun = 4
PROPERTY Sorted
CHECK_DEADLOCK FALSE
"""
IMPL_CFG = """SPECIFICATION ISpec
CONSTANTS
  Values = {1,2,3%s}
  MaxRun = 3
  MaxItems = 4
  OnSpans = %s
  Dedup = %s
  DecreaseTop = %s
INVARIANTS Shown NothingAside Runny
PROPERTIES Refines Quiet
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION GenSpec
CONSTANTS
  Values = {1,2,3}
  MaxRun = 3
  Depth = %d
VIEW GenView
CHECK_DEADLOCK FALSE
"""
SIM_CFG = """SPECIFICATION Spec
CONSTANTS
  Values = {1,2}
  MaxEvents = %d
  MaxRep = 2
INVARIANTS Sound Same
PROPERTY NoBad
CHECK_DEADLOCK FALSE
"""
DIV_CFG = """SPECIFICATION DSpec
CONSTANTS
  Values = {1,2}
  MaxEvents = 1
  MaxRep = %d
INVARIANT InStep
PROPERTIES Whole Steady
CHECK_DEADLOCK FALSE
"""


def driver(ctx, replay=None):
    if ctx.prop == "S03":
        return E.build(ctx.work, "divsim2", DIV_UNITS)
    return E.build(ctx.work, "pqsim", PQ_UNITS)


def trace_cfg(module):
    return SPAN_TRACE if module == "SpanTrace" else SIM_TRACE


def queue_models(ctx, exe):
    T = ctx.thorough
    more = ",4" if T else ""
    jobs = [("SpanQueue", "SpanQueue", SPAN_CFG)]
    for k, v in enumerate([("TRUE", "TRUE", "TRUE"), ("TRUE", "TRUE", "FALSE"), ("TRUE", "FALSE", "TRUE"), ("TRUE", "FALSE", "FALSE"), ("FALSE", "TRUE", "FALSE"), ("FALSE", "FALSE", "FALSE")]):
        jobs.append(("SpanImpl-%d" % k, "SpanImpl", IMPL_CFG % ((more,) + v)))
    ctx.models(jobs, workers=2)
    rng = ctx.rng("gen")
    found = ctx.generate("SpanGen", GEN_CFG % (5 if T else 4), 20000 if T else 2500, "all behaviours of this length", workers=2)
    sc = [("g%d" % k, "@ g%d cfg=model shift=%d\n" % (k, rng.choice([0, 0, 33, 61])) + "\n".join(x for x in s.split(";") if x) + "\n") for k, s in enumerate(found)]
    ctx.conform(exe, sc, "SpanTrace", SPAN_TRACE, ["cfg=model"], tag="g")
    sc = []
    for k in range(300 if T else 60):       # many runs at once, past the growths of the queues
        top = rng.choice([12, 40, 200, 2000])
        up = rng.choice([0.2, 0.4, 0.6])
        lines = ["@ r%d cfg=model shift=%d" % (k, rng.choice([0, 32, 52]))]
        for _ in range(rng.choice([30, 80, 200])):
            if rng.random() < up:
                n = rng.choice([1, 1, 2, 3, 5, 8, min(30, top)])
                lines.append("p " + " ".join(map(str, sorted(rng.sample(range(1, top + 1), n), reverse=True))))
            else:
                lines.append("o")
        sc.append(("r%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "SpanTrace", SPAN_TRACE, ["cfg=model"], tag="r")
    ctx.assumptions = ["runs are not empty, strictly descending and stay in memory, as the simulator makes them", "single-threaded use"]


def queue_sim(ctx, exe):
    T = ctx.thorough
    ctx.models([("Simulator", "Simulator", SIM_CFG % (9 if T else 7))], workers=4)
    rng = ctx.rng("sim")
    sc = []

    def run(name, wrong=0, delta=0):
        return "run %s %d %d %d %d %d %d" % (name, rng.choice([0, 7, 999, 1000, 12345, 1234567, 2000000000, 4294967295, 5000000001, 1 << 62]), rng.choice([0, 1023, 1024, 99999, 1024000, 2000000000, 1 << 32, (1 << 42) + 5, (1 << 62) + 1]),
                                             0, wrong, delta, rng.randrange(2))

    def timed(line, used):
        w = line.split()
        while True:      # every row of the table has a time of its own
            t = rng.choice([0, 999, 1000, 1999, 5000, 12345, 1000000, 1234567890, 4294967296, 4500000000000]) + rng.choice([0, 0, 1, 1000, 2000, 7000])
            if t // 1000 not in used:
                used.add(t // 1000)
                break
        w[4] = str(t)
        return " ".join(w)

    def make():
        o = rng.choice(["dup", "dup", "order", "random"])
        if o == "dup":
            return "dup %d %d %d %d" % (rng.choice([0, 1, 5, 20, 40]), rng.choice([1, 2, 3, 5, 11, 12]), rng.choice([0, 1, 3, 10, 30]), rng.choice([0, 0, 1, 30, 100]))
        if o == "order":
            n, r, a = rng.choice([0, 1, 2, 5, 8]), rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 9, 20])
            return "order %d %d %d" % (n, r, a if 3 * (r + n * a) >= n * r else r)   # the values stay above zero
        return "random %d %d %d" % (rng.choice([0, 1, 2, 5, 8]), rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 7, 12]))
    for k in range(1200 if T else 160):
        lines = ["@ s%d cfg=simulator rnd=%d rng=%d rep=%d" % (k, rng.randrange(1 << 30), rng.choice([0, 0, 1000, 200, 130]), rng.choice([1, 1, 1, 2, 3]))]
        used = set()
        for _ in range(rng.choice([1, 1, 2])):
            lines.append(make())
            if rng.random() < .2:
                lines.append("summary")
            for q in range(rng.choice([1, 2])):
                lines.append(timed(run("Q%d" % rng.randrange(100)), used))
            lines += rng.sample(["summary", "events", "data"], rng.choice([1, 2, 3]))
        if rng.random() < .5:
            lines.append(timed(run("wrong", rng.choice([1, 1, 2, 3, 5, 9, 14, 25]), rng.choice([1, 1, 2, 100, 0])), used))
            lines.append("data")
        else:
            lines.append("models")
        sc.append(("s%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "SimulatorTrace", SIM_TRACE, ["cfg=simulator"], tag="s")
    ctx.assumptions = ["run lengths and target sizes are positive, and orderSpans has room to keep its values above zero", "random numbers are drawn from more values than the queue can hold",
                       "what is printed while the states are printed is not covered"]


def div_sim(ctx, exe):
    T = ctx.thorough
    ctx.models([("DivSim", "DivSim", DIV_CFG % (3 if T else 2))], workers=4)
    rng = ctx.rng("dsim")
    sc = []
    for k in range(1000 if T else 200):
        rep = rng.choice([1, 1, 2, 3])
        lines = ["@ d%d rep=%d tell=%d" % (k, rep, rng.randrange(2))]
        used = set()

        def timed():
            while True:
                t = rng.choice([0, 499, 500, 1000, 1499, 1500, 5000, 1000000, 1234567890, 4294967296, 4500000000000]) + rng.choice([0, 0, 1000, 2000, 7000])
                if (t + 500) // 1000 not in used:
                    used.add((t + 500) // 1000)
                    return t
        salt = rng.randrange(1000)
        most = rng.choice([1, 2, 2, 3, 5])
        pars = []
        for m in range(rng.choice([1, 1, 2])):
            if not pars or rng.random() < .4:
                pars.append((rng.choice([1, 2, 3, 10]), rng.choice([0, 1, 2, 5, 12]), rng.choice([0, 1, 2, 5, 12]), rng.randrange(2)))
            p = rng.choice(pars)
            if rng.random() < .3:
                p = p[:3] + (1 - p[3],)
            lines.append("make %d %d %d %d" % p)
            for q in range(rng.choice([1, 2])):
                lines.append("run F%d %d %d 0 0 %d %d %d" % (rng.randrange(100), salt, most, timed(), rng.choice([0, 12, 1234, 2000000000, 5000000001, 1 << 62]), rng.choice([0, 5, 1234])))
            if rng.random() < .6:
                lines.append("data")
        n = (p[1] + p[2]) * rep
        z = rng.random()
        if z < .5 and n:
            lines.append("run wrong %d %d %d %d %d 1 1" % (salt, most, 1 + rng.randrange(n), rng.choice([1, 1, -1, 2]), timed()))
            lines.append("data")
        elif z < .6:
            lines.append("run other %d %d 0 0 %d 1 1" % (salt + 1, most, timed()))
            lines.append("data")
        elif rep == 1 and z < .8:
            lines.append("make %d %d %d %d" % (rng.choice([4, 6, 10]), rng.choice([1, 5, 30, 80]), rng.choice([1, 5, 60]), rng.randrange(2)))
            lines.append(rng.choice(["real", "minis"]))
        sc.append(("d%d" % k, "\n".join(lines) + "\n"))
    ctx.conform(exe, sc, "DivSimTrace", SIM_TRACE, [], tag="d")
    ctx.assumptions = ["the finders of src/divsim are given monomials that are all different", "finders answer each call of a history in the same way each time; the finders of src/divsim do for one repeat",
                       "what is printed besides names, times and counts is not covered"]


def check(ctx):
    exe = driver(ctx)
    {"S01": queue_models, "S02": queue_sim, "S03": div_sim}[ctx.prop](ctx, exe)
