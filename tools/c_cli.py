"""Names (N01) and the command line (C01 parsing, C02 parameter values, C03 help)."""
import os
import re

import engine as E

LIBSRC = ["Action", "BoolParameter", "CliParameter", "CliParser", "ColumnPrinter", "display", "error", "HelpAction", "IntegerParameter", "StringParameter"]
UNITS = [(os.path.join(E.HARN, "cli_main.cpp"), [])] + [(os.path.join(E.REPO, "src/mathic/%s.cpp" % f), []) for f in LIBSRC]
TRACE_CFG = """SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
"""
MODEL_CFG = """SPECIFICATION MSpec
CONSTANTS
  Depth = %d
  Emit = %s
INVARIANTS ActionRight DefaultsKept EmptyIgnored LastWins DirectKept NamesRight
CHECK_DEADLOCK FALSE
"""
GEN_CFG = """SPECIFICATION MSpec
CONSTANTS
  Depth = %d
  Emit = TRUE
CHECK_DEADLOCK FALSE
"""
RE_LINE = re.compile(r'^<<"LINE", <<(.*)>>>>$')
# as in spec/CliModel.tla
VOCAB = ["", "a", "ab", "b", "aa", "-a", "-ab", "-b", "-", "5", "off", "on", "-c"]


def hx(s):
    b = s.encode("latin-1") if isinstance(s, str) else s
    return "x" + b.hex()


def act(name, direct, pars, short="s", desc="d"):
    return "act %s %d %s %s %s" % (hx(name), direct, hx(short), hx(desc), " ".join("%s %s %s %s" % (k, hx(n), hx(v), hx(d)) for n, k, v, d in pars))


MODEL_PROGRAM = [act("a", 1, [("a", "bool", "off", "d"), ("ab", "string", "d", "d")]),
                 act("ab", 0, [("aa", "int", "7", "d"), ("ab", "bool", "on", "d")]),
                 act("bb", 0, [("b", "string", "", "d")])]


def driver(ctx, replay=None):
    return E.build(ctx.work, "cli", UNITS)


def trace_cfg(module):
    return TRACE_CFG


def name_in(rng, alpha, top=6):
    return "".join(rng.choice(alpha) for _ in range(rng.randrange(top + 1)))


def family(rng, n, empty_ok=True, nul=False):
    """Names that share prefixes."""
    alpha = rng.choice(["ab", "abc", "aAzZ", "a-_ ", "ab\xe9\x7f", "0159"] + (["ab\0"] if nul else []))
    out = []
    while len(out) < n:
        if out and rng.random() < 0.6:
            b = rng.choice(out)
            c = b[:rng.randrange(len(b) + 1)] + name_in(rng, alpha, 3)
        else:
            c = name_in(rng, alpha, 5)
        if c not in out and (c or (empty_ok and rng.random() < 0.3)):
            out.append(c)
    return out


def near(rng, names):
    """A text close to the names: a name, a prefix, an extension, a variation."""
    if not names:
        return name_in(rng, "ab", 3)
    b = rng.choice(names)
    r = rng.random()
    if r < 0.35:
        return b[:rng.randrange(len(b) + 1)]
    if r < 0.6:
        return b
    if r < 0.73:
        return b + rng.choice("ab-zA ")
    if r < 0.78:                      # a NUL character is a character like any other
        return b[:rng.randrange(len(b) + 1)] + rng.choice(["\0", "\0x", "\0" + b])
    if r < 0.85:
        return b[1:]
    if r < 0.92 and b:
        k = rng.randrange(len(b))
        return b[:k] + rng.choice("abAz") + b[k + 1:]
    return "" if r < 0.96 else b.swapcase()


def names_script(rng, sid):
    fam = family(rng, rng.randrange(0, 12), nul=True)
    ops = ["reg " + hx(n) for n in fam]
    q = []
    for _ in range(rng.choice([10, 25])):
        o = rng.choices(["res", "cwp", "cre", "nul", "lst", "emp"], [5, 5, 2, 2, 3, 0.5])[0]
        q.append(o if o == "emp" else "%s %s" % (o, hx(near(rng, fam))))
    # registrations and questions mixed, in order
    seq, r = [], 0
    for x in q:
        while r < len(ops) and rng.random() < 0.5:
            seq.append(ops[r])
            r += 1
        seq.append(x)
    seq += ops[r:]
    for n in fam:
        for k in range(len(n) + 1):
            if rng.random() < 0.5:
                seq.append("res " + hx(n[:k]))
    seq += ["lst x", "emp"]
    return sid, "@ %s\n" % sid + "\n".join(seq) + "\n"


INTS = ["0", "1", "7", "9", "10", "12345", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "4294967302",
        "18446744073709551615", "18446744073709551616", "18446744073709551623", "99999999999999999999999", "10000000000", "8589934592", "21474836470",
        "-0", "-1", "-5", "+5", "+0", "00", "007", "01", " 5", "5 ", "5a", "a5", "0x10", "1e3", "1.0", "1.", ".5", "5,000", "1 2", "", "-", "+", " ", "on", "\t5", "5\n", "--5", "5-", "\xb2", "1\x002"]
BOOLS = ["on", "off", "", "ON", "Off", "onn", "of", "o", "on ", " on", "true", "false", "0", "1", "yes", "no", "off\n", "nof"]
STRINGS = ["", "a", "on", "hello world", " lead", "trail ", "\n", "a\tb", "-dash", "\xff\x01", "x" * 300, "5"]


def arg_for(rng, kind):
    r = rng.random()
    if kind == "int":
        if r < 0.3:
            return str(rng.choice([rng.randrange(20), rng.randrange(1 << 16), rng.randrange(1 << 31), rng.randrange(1 << 31)]))
        if r < 0.45:
            s = str(rng.randrange(1 << 31))
            k = rng.randrange(len(s) + 1)
            return s[:k] + rng.choice("0 a-+.,x") + s[k:]
        return rng.choice(INTS)
    if kind == "bool":
        return rng.choice(BOOLS)
    return rng.choice(STRINGS + INTS[:5])


def values_script(rng, sid):
    lines = ["@ " + sid]
    for kind in rng.sample(["bool", "int", "string"], 3):
        dv = {"bool": ["on", "off"], "int": ["0", "7", "2147483647"], "string": STRINGS}[kind]
        lines.append("par %s %s" % (kind, hx(rng.choice(dv))))
        for _ in range(rng.choice([8, 20])):
            r = rng.random()
            if r < 0.7:
                lines.append("arg " + hx(arg_for(rng, kind)))
            elif r < 0.8:
                lines.append("set " + hx(rng.choice(dv)))
            lines.append("get")
    return sid, "\n".join(lines) + "\n"


def program(rng, help_=0.0):
    acts = [n for n in family(rng, rng.randrange(1, 7), empty_ok=False) if n != "help"]
    acts = [a.lstrip("-") or "act" for a in acts]
    acts = list(dict.fromkeys(acts))
    if help_ and rng.random() < 0.3:
        acts.append("helpful")
    prog, info = [], []
    for a in acts:
        pars = []
        for n in family(rng, rng.randrange(0, 6), empty_ok=False) if rng.random() < 0.9 else []:
            kind = rng.choice(["bool", "int", "string"])
            dv = rng.choice({"bool": ["on", "off"], "int": ["0", "7", "2147483647", "123456789"], "string": ["", "abc", "a b", "off"]}[kind])
            pars.append((n, kind, dv, rng.choice(["d", "", "several words in a description", "long " * 30 + "end", "two\nlines", "  indented words here"])))
        direct = rng.random() < 0.5
        prog.append(act(a, direct, pars, rng.choice(["short", "A short description.", "x", "", "quite a long short description " * 3]),
                        rng.choice(["d", "A description of the action.\nIn two lines.", "word " * 40, "  - item one\n  - item two", ""])))
        info.append((a, pars))
    return prog, info


def command(rng, info):
    names = [a for a, _ in info]
    a, pars = rng.choice(info)
    line = [a if rng.random() < 0.6 else near(rng, names)]
    while rng.random() < 0.25:
        line.append(rng.choice(["word", "a", "", "5", "on", "two words"]))
    pn = [p[0] for p in pars]
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        if pars and rng.random() < 0.9:
            p = rng.choice(pars)
            nm = p[0] if rng.random() < 0.55 else (p[0][:rng.randrange(1, len(p[0]) + 1)] if rng.random() < 0.8 else near(rng, pn))
            line.append("-" + nm)
            r = rng.random()
            if r < 0.75:
                line.append(rng.choice({"bool": ["on", "off"], "int": ["0", "5", "123"], "string": ["x", "on", "a b"]}[p[1]]) if r < 0.55 else arg_for(rng, p[1]))
            if rng.random() < 0.06:
                line.append(rng.choice(["stray", "", "5"]))
        else:
            line.append(rng.choice(["-", "--", "-zz", "--a", ""]))
    if rng.random() < 0.03:
        line = []
    return line


def parse_script(rng, sid):
    prog, info = program(rng)
    lines = ["@ " + sid] + prog
    if rng.random() < 0.3:
        lines.insert(1, "rhelp x x")
        info = info + [("help", [])]
    for _ in range(rng.choice([10, 20])):
        w = command(rng, info)
        # arguments with a zero byte cannot come from a command line
        lines.append("run " + " ".join(hx(x.replace("\x00", "0")) for x in w))
        if rng.random() < 0.15:
            lines.append("mk " + hx(near(rng, [a for a, _ in info])))
    lines.append("acts")
    return sid, "\n".join(lines) + "\n"


def help_script(rng, sid):
    prog, info = program(rng, help_=1)
    pre = rng.choice(["", "This is the program.", "Welcome to it\n\nThe actions are as follows.\n", "word " * 30])
    post = rng.choice(["", "That is all.", "See\n  the manual\n"])
    at = rng.randrange(len(prog) + 1)
    lines = ["@ " + sid] + prog[:at] + ["rhelp %s %s" % (hx(pre), hx(post))] + prog[at:]
    names = [a for a, _ in info] + ["help"]
    lines.append("help")
    for a in names:
        if not a.startswith("-"):
            lines.append("help " + hx(a))
    for _ in range(8):
        t = [near(rng, names) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        if not any(x.startswith("-") for x in t):
            lines.append(("help " + " ".join(hx(x) for x in t)).strip())
        if rng.random() < 0.3:
            lines.append("mk " + hx(near(rng, names)))
    lines.append("acts")
    return sid, "\n".join(lines) + "\n"


def check(ctx):
    T = ctx.thorough
    exe = driver(ctx)
    P = ctx.prop
    ctx.models([("CliModel", "CliModel", MODEL_CFG % (5 if T else 4, "FALSE"))], workers=4)
    n = 6000 if T else 700
    rng = ctx.rng("random")
    mk = {"N01": names_script, "C02": values_script, "C01": parse_script, "C03": help_script}[P]
    if P == "C01":
        r = E.tlc(ctx.work, "CliModel", GEN_CFG % (5 if T else 4), workers=2, heap="4g", timeout=700, tag="gen")
        if not r.ok:
            raise E.CheckError("script generation failed:\n" + r.out[-2000:])
        found = sorted(set(m.group(1) for m in map(RE_LINE.match, r.out.splitlines()) if m))
        ctx.notes["generated_command_lines"] = len(found)
        cap = 150000 if T else 24000
        if len(found) > cap:
            found = rng.sample(found, cap)
        sc = []
        for k in range(0, len(found), 150):
            sid = "g%d" % (k // 150)
            ls = ["run " + " ".join(hx(VOCAB[int(i) - 1]) for i in f.split(",")) for f in found[k:k + 150]]
            sc.append((sid, "\n".join(["@ " + sid] + MODEL_PROGRAM + ls) + "\n"))
        ctx.conform(exe, sc, "CliTrace", TRACE_CFG, [], tag="g")
    if P == "N01":
        sc = [parse_script(rng, "p%d" % k) for k in range(n // 4)]
        ctx.conform(exe, sc, "CliTrace", TRACE_CFG, [], tag="p")
    sc = [mk(rng, "r%d" % k) for k in range(n // 2 if P == "C03" else n)]
    ctx.conform(exe, sc, "CliTrace", TRACE_CFG, [], tag="r")
    ctx.assumptions = ["names are registered once each, as the code asserts", "values of an integer parameter between 2^31 and 2^32-1 may be accepted or refused: "
                       "the error message documents the smaller range, the type holds the larger", "default locale"]
