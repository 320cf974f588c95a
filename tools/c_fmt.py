"""Formatting: F01 columns, F02 numbers, F03 messages, F04 timer."""
import os

import engine as E

UNITS = [(os.path.join(E.HARN, "fmt_main.cpp"), [])] + [(os.path.join(E.REPO, "src/mathic/%s.cpp" % f), []) for f in ["ColumnPrinter", "display", "error", "Timer"]]
TRACE_CFG = """SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION MSpec
CONSTANTS
  MaxLen = %d
  MaxVal = %d
  MaxLines = %d
INVARIANTS WrapRight RoundRight BigRight RowsAligned TextKept
CHECK_DEADLOCK FALSE
"""
TOP = (1 << 64) - 1


def hx(s):
    return "x" + s.encode("latin-1").hex()


def driver(ctx, replay=None):
    return E.build(ctx.work, "fmt", UNITS)


def trace_cfg(module):
    return TRACE_CFG


# ------------------------------------------------------------------ F01

def cell(rng):
    a = rng.choice(["ab", "x ", "0123456789,.", "ab\t*", "\xe9z"])
    return "".join(rng.choice(a) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 30])))


def columns_script(rng, sid):
    lines = ["@ " + sid, "new %d" % rng.choice([0, 0, 0, 1, 2, 3])]
    if rng.random() < 0.4:
        lines.append("prefix " + hx(rng.choice(["", " ", "# ", "prefix"])))
    many = rng.randrange(0, 5)
    for _ in range(many):
        lines.append("col %s %s %d %s" % (hx(rng.choice(["  ", "  ", "", " ", "* ", " - ", "| "])), hx(rng.choice(["", "", "", " ", " |", "!"])),
                                          rng.random() < 0.5, hx(cell(rng) if rng.random() < 0.3 else "")))
    for _ in range(rng.choice([3, 10, 25])):
        r = rng.random()
        if r < 0.75:
            w = cell(rng) + (rng.choice(["\n", "\n", "\n", "", "\n\n"]))
            if rng.random() < 0.1:
                w = "\n".join(cell(rng) for _ in range(3))
            lines.append("write %d %s" % (rng.randrange(9), hx(w)))
        elif r < 0.83:
            lines.append("fill %d %d" % (rng.randrange(9), rng.choice([45, 61, 32, 46, 48, 97])))
        elif r < 0.87:
            lines.append("fillall %d" % rng.choice([45, 61, 32]))
        elif r < 0.9:
            lines.append("col x2020 x %d x" % (rng.random() < 0.5))
        elif r < 0.92:
            lines.append("prefix " + hx(rng.choice(["", ">"])))
        else:
            lines.append("print %d" % rng.randrange(3))
    lines += ["print 0", "print 1", "print 2"]
    return sid, "\n".join(lines) + "\n"


# ------------------------------------------------------------------ F02

def around(rng, x, w=3):
    return max(0, min(TOP, x + rng.randrange(-w, w + 1)))


def u64(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice([0, 1, 5, 9, 10, 99, 100, 101, 999, 1000, 1001, 1023, 1024, 1025, TOP, TOP - 1, 1 << 63, (1 << 63) - 1, 10 ** 19, (1 << 53) + 1])
    if r < 0.4:    # digit and unit boundaries
        b = rng.choice([1000, 1024])
        k = rng.randrange(0, 7)
        f = rng.choice([b ** k, b ** k * 999950 // 1000 // 1000, b ** k * 102395 // 102400, b ** k * 99995 // 100000, b ** k * rng.randrange(1, 2000), b ** k * rng.randrange(1, 20000) // 20,
                        b ** k * 100, b ** k * 10, b ** k // 2, b ** k * 999, b ** k * 1023])
        return around(rng, f, rng.choice([0, 1, 3]))
    if r < 0.55:   # halves and quarters
        k = rng.randrange(0, 6)
        return min(TOP, (rng.randrange(1, 4000) * rng.choice([1000, 1024]) ** k) // rng.choice([1, 2, 4, 20]))
    if r < 0.65:
        return min(TOP, 10 ** rng.randrange(20) + rng.randrange(-1, 2))
    return rng.getrandbits(rng.randrange(1, 65))


def numbers_script(rng, sid):
    lines = ["@ " + sid]
    for _ in range(40):
        fn = rng.choice(["commafy", "si", "si", "bytes", "bytes", "one", "pct1", "pcti", "pcti", "pctf", "pctd", "ratioi", "ratioi", "ratiod"])
        a, b, sa, sb = u64(rng), 1, 0, 0
        if fn in ("pcti", "pctf", "ratioi"):
            r = rng.random()
            if r < 0.3:
                b = rng.choice([1, 2, 3, 4, 8, 16, 20, 100, 1000])
                a = rng.randrange(0, 3000) if rng.random() < 0.8 else a
            elif r < 0.4:
                b = 0
                a = rng.choice([0, a])
            elif r < 0.6:
                b = max(1, around(rng, a))
            else:
                b = u64(rng)
        elif fn in ("one", "pct1", "pctd", "ratiod"):
            r = rng.random()
            if r < 0.4:          # eighths and the like
                a, sa = rng.randrange(0, 5000), rng.randrange(0, 6)
            elif r < 0.5:
                a, sa = rng.choice([0, 1, (1 << 53) - 1]), rng.choice([0, 1, 10])
            elif r < 0.8:
                a, sa = rng.getrandbits(rng.randrange(1, 54)), rng.randrange(-12, 54)
            else:                # large
                a, sa = rng.getrandbits(53), -rng.choice([0, 3, 8, 10, 11, 12, 40, 100])
            if fn in ("pctd", "ratiod"):
                b = rng.choice([0, 1, 3, 4, 7, 8, 100, rng.getrandbits(rng.randrange(1, 54))])
                sb = rng.choice([0, 0, 1, 2, 3]) if b else 0
                if b == 0:
                    a = rng.choice([0, max(1, a)])
                    sa = 0
        lines.append("num %s %d %d %d %d" % (fn, a, sa, b, sb))
    return sid, "\n".join(lines) + "\n"


# ------------------------------------------------------------------ F03

def message(rng):
    out = []
    style = rng.choice(["prose", "prose", "mixed", "edge"])
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        line = rng.choice(["", "", "", "  ", "\t", "    - "])
        size = rng.choice([0, 1, 3, 12, 30])
        for k in range(size):
            if style == "prose":
                w = "".join(rng.choice("abcdef.,-") for _ in range(rng.randrange(1, 10)))
            elif style == "mixed":
                w = "w" * rng.choice([1, 2, 10, 38, 39, 40, 77, 78, 79, 80, 81, 100, 200])
            else:
                # aim at the display width exactly
                room = 79 - len(line.split("\n")[-1]) % 79
                w = "e" * max(1, rng.choice([room, room - 1, room + 1, room - 2, 3]))
            line += w + (rng.choice([" ", " ", " ", "  ", "\t", "   ", "\r "]) if k + 1 < size or rng.random() < 0.15 else "")
        out.append(line)
    return "\n".join(out) + rng.choice(["", "\n", "\n\n", "\n \n", "\n  "])


def display_script(rng, sid):
    lines = ["@ " + sid]
    for _ in range(6):
        p = rng.choice(["", "", "", " ", "   ", "> ", "prefix: ", "p" * 40, "p" * 78, "p" * 79, "p" * 80])
        m = message(rng)
        if p and rng.random() < 0.5:
            m = "\n".join(x[:max(0, 79 - len(p))] for x in m.split("\n"))
        lines.append("display %d %s %s" % (rng.choice([0, 0, 0, 1, 2, 3, 4]), hx(m), hx(p)))
    return sid, "\n".join(lines) + "\n"


# ------------------------------------------------------------------ F04

def timer_script(rng, sid):
    lines = ["@ " + sid, "timer %d" % rng.choice([0, 0, 1, 12345, 10 ** 9])]
    for _ in range(40):
        unit = rng.choice([1, 10 ** 3, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6])
        us = unit * rng.choice([0, 1, 9, 10, 59, 60, 61, 99, 100, 599, 600, 999, 1000, rng.randrange(5000)]) + rng.choice([0, 0, 1, 499, 500, 501, 999, -1, -500, -501, rng.randrange(10 ** 6), rng.randrange(10 ** 4)])
        lines.append("time %d %d" % (max(0, us), rng.randrange(2)))
        if rng.random() < 0.15:
            lines.append("treset")
    return sid, "\n".join(lines) + "\n"


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    rng = ctx.rng("random")
    ctx.models([("FormatModel", "FormatModel", MODEL_CFG % {"F01": (0, 0, 6 if T else 4), "F02": (0, 60 if T else 25, 0), "F03": (10 if T else 8, 0, 0), "F04": (0, 40 if T else 20, 0)}[ctx.prop])], workers=2)
    mk, n = {"F01": (columns_script, 700), "F02": (numbers_script, 220), "F03": (display_script, 500), "F04": (timer_script, 150)}[ctx.prop]
    sc = [mk(rng, "r%d" % k) for k in range(n * (8 if T else 1))]
    ctx.conform(exe, sc, "FormatTrace", TRACE_CFG, [], tag="r")
    ctx.assumptions = {"F01": ["text without zero bytes", "a fill character other than a line break"],
                       "F02": ["non-negative finite arguments; denominators zero or at least 10^-9", "default locale",
                               "beyond 15 digits the precision of double arithmetic is allowed for"],
                       "F03": ["messages without zero bytes, characters below 128"],
                       "F04": ["the processor clock is replaced by one the check controls; CLOCKS_PER_SEC is one million"]}[ctx.prop]
