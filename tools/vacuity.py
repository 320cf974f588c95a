#!/usr/bin/env python3
"""vacuity.py PROPERTY...: how sharp the trace specifications are. Runs the property's check (small) on the real code,
then corrupts one thing in each of some accepted traces and counts how many of the corrupted traces TLC rejects.
What is accepted is shown: it has to be a behaviour that the specification leaves free."""
import collections
import concurrent.futures as cf
import copy
import importlib
import json
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
import engine as E


def corrupt(rng, lines):
    """One change of one event: (what kind of change, kind of event, lines) or None."""
    ev = [json.loads(l) for l in lines]
    k = rng.randrange(1, len(ev))
    e = copy.deepcopy(ev[k])
    how = rng.choice(["value", "value", "value", "drop", "twice"])
    if how == "drop":
        return how, e["e"], lines[:k] + lines[k + 1:], k
    if how == "twice":
        return how, e["e"], lines[:k + 1] + lines[k:], k
    fields = [f for f in e if f != "e"]
    if not fields:
        return None
    f = rng.choice(fields)

    def change(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return v + rng.choice([1, 1, -1, 2])
        if isinstance(v, list):
            if not v:
                return None
            j = rng.randrange(len(v))
            w = list(v)
            if rng.random() < 0.4:
                del w[j]
            else:
                w[j] = change(w[j])
                if w[j] is None:
                    return None
            return w
        if isinstance(v, dict) and v:
            w = dict(v)
            j = rng.choice(sorted(w))
            w[j] = change(w[j])
            return None if w[j] is None else w
        return None
    v = change(e[f])
    if v is None:
        return None
    e[f] = v
    return "value", "%s.%s" % (e["e"], f), lines[:k] + [json.dumps(e)] + lines[k + 1:], k


def main():
    num = 24
    for prop in sys.argv[1:]:
        ctx = C.Ctx(prop, "quick", 1)
        rng = random.Random(prop)
        mod = importlib.import_module(C.SPECIAL.get(prop) or C.COMPONENT[prop[0]])
        jobs = []

        def grab(work, module, cfg, traces, stats, batch_events=0):
            t = [x for x in traces if 3 < len(x[2]) < 400]
            for x in rng.sample(t, min(num, len(t))):
                c = None
                while c is None:
                    c = corrupt(rng, x[2])
                jobs.append((module, cfg, x, c))
            return []
        E.validate = grab
        ctx.models = lambda *a, **k: None
        mod.check(ctx)
        tried, got, ok = collections.Counter(), collections.Counter(), []

        def one(k):
            module, cfg, x, (how, kind, lines, at) = jobs[k]
            p = ctx.work.path("v%d.ndjson" % k)
            with open(p, "w") as fh:
                fh.write("\n".join(lines) + "\n")
            return E.validate_file(ctx.work, module, cfg, p, len(lines), heap="1g", tag="v%d" % k)[0]
        with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "6"))) as ex:
            res = list(ex.map(one, range(len(jobs))))
        for (module, cfg, x, (how, kind, lines, at)), r in zip(jobs, res):
            tried[how] += 1
            if r is None:
                ok.append((how, kind, lines[max(0, at - 1):at + 1]))
            else:
                got[how] += 1
        print("%s: %s" % (prop, ", ".join("%s %d of %d rejected" % (h, got[h], tried[h]) for h in sorted(tried))))
        for how, kind, l in ok if os.environ.get("SHOW") else []:
            print("   accepted:", how, kind, " || ".join(x[:160] for x in l))
        sys.stdout.flush()
        ctx.work.cleanup()


if __name__ == "__main__":
    main()
