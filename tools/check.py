#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: model-checks the specifications it rests on, drives the code built from /repo with
scripts generated from the specification and at random, and validates the recorded traces with TLC.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check failed."""
import argparse
import importlib
import json
import os
import random
import re
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E

COMPONENT = {"D": "c_div", "Q": "c_pq", "P": "c_pairs", "H": "c_hash", "B": "c_bits", "N": "c_cli", "C": "c_cli", "F": "c_fmt", "L": "c_life", "K": "c_tree", "S": "c_sim"}
RE_KIND = re.compile(r'"e": ?"(\w+)"')
RE_SCR = re.compile(r'^<<"SCRIPT", "(.*)">>$')
SPECIAL = {"D06": "c_mask", "L02": "c_own"}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.work = E.Work(prop)
        self.stats = {"states": 0, "transitions": 0, "traces": 0, "models": [], "traces_run": 0, "events": 0, "scripts": 0}
        self.samples = []
        self.assumptions = []
        self.rejections = []   # (exe, opts, scripts by id, module, cfg, rejection)
        self.bg = []
        self.notes = {}

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, *k):
        return random.Random("/".join(map(str, (self.prop, self.seed) + k)))

    # model checking runs beside the conformance work
    def models(self, jobs, workers=2, par=2, timeout=800):
        st = {"states": 0, "transitions": 0, "models": []}
        box = {}

        def run():
            try:
                E.model_check(self.work, jobs, st, workers=workers, timeout=timeout, par=par)
            except Exception as ex:       # re-raised by join_models
                box["ex"] = ex
        th = threading.Thread(target=run)
        th.start()
        self.bg.append((th, st, box))

    def join_models(self):
        for th, st, box in self.bg:
            th.join()
            if "ex" in box:
                raise box["ex"]
            for k in ("states", "transitions"):
                self.stats[k] += st[k]
            self.stats["models"] += st["models"]
        self.bg = []

    def generate(self, module, cfg, limit, note, heads=False, args=(), workers=1):
        """Operation scripts that TLC prints while it explores a generating specification: at most limit of them.
        Without heads, a script that another one begins with is left out."""
        r = E.tlc(self.work, module, cfg, workers=workers, heap="3g", timeout=600, tag="gen-" + module, args=args)
        if not r.ok:
            raise E.CheckError("script generation with %s failed:\n%s" % (module, r.out[-2000:]))
        self.stats["states"] += r.distinct
        self.stats["transitions"] += r.generated
        found = sorted(set(m.group(1) for m in map(RE_SCR.match, r.out.splitlines()) if m))
        if not heads:
            head = set(f.rsplit(";", 2)[0] + ";" for f in found)
            found = [f for f in found if f not in head]
        if not found:
            raise E.CheckError("no script generated with %s (%s)" % (module, note))
        some = found if len(found) <= limit else self.rng(module, note).sample(found, limit)
        self.notes.setdefault("generated_from_the_specification", []).append(
            {"specification": module, "what": note, "scripts_in_all": len(found), "replayed": len(some)})
        return some

    def conform(self, exe, scripts, module, cfg, opts=(), batch_events=12000, tag="d", timeout=600):
        """scripts: list of (id, text). Runs them on the real code and validates the traces."""
        opts = list(opts) + ["seed=%d" % self.seed]
        traces = E.run_driver_parallel(self.work, exe, scripts, opts, tag=tag, timeout=timeout)
        self.stats["scripts"] += len(scripts)
        if not traces:
            raise E.CheckError("the driver recorded no trace")
        kinds = self.notes.setdefault("events_by_kind", {})
        for t in traces:
            for m in map(RE_KIND.search, t[2]):
                kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
        empty = [t for t in traces if not t[2]]
        if empty:
            raise E.CheckError("empty trace for script %s on %s" % (empty[0][0], empty[0][1]))
        if len(self.samples) < 3:
            s = traces[len(traces) // 2]
            self.samples.append({"script": s[0], "configuration": s[1], "trace_head": [json.loads(x) for x in s[2][:6]], "events": len(s[2])})
        rej = E.validate(self.work, module, cfg, traces, self.stats, batch_events=batch_events)
        if rej:
            byid = dict(scripts)
            for r in rej:
                self.rejections.append((exe, opts, byid[r[0]], module, cfg, r))
        return traces

    def confirm(self, exe, opts, text, module, cfg, sid, cfgname):
        for attempt in range(3):
            sf, of = self.work.path("confirm.scr"), self.work.path("confirm.out")
            with open(sf, "w") as fh:
                fh.write(text)
            E.run_driver(exe, sf, of, [o for o in opts if not o.startswith("max=")] + ["only=" + cfgname])
            for t in E.read_traces(of):
                path = self.work.path("confirm.ndjson")
                with open(path, "w") as fh:
                    fh.write("\n".join(t[2]) + "\n")
                at, _ = E.validate_file(self.work, module, cfg, path, len(t[2]), tag="confirm")
                if at is not None:
                    return t[2], at
        return None


def matches_known(prop, cfgname, text, event):
    for f in E.known_findings():
        if f.get("property") != prop or f.get("status") == "fixed":
            continue
        if f.get("config", "") in cfgname and f.get("script", None) == text and f.get("event", None) in (None, event):
            return f
    return None


def finish(ctx):
    """Confirms rejections and turns them into the verdict."""
    reported = 0
    unconfirmed = []
    for exe, opts, text, module, cfg, (sid, cfgname, lines, at) in ctx.rejections:
        c = ctx.confirm(exe, opts, text, module, cfg, sid, cfgname)
        if c is None:
            unconfirmed.append((sid, cfgname))
            continue
        lines, at = c
        ev = lines[at]
        known = matches_known(ctx.prop, cfgname, text, ev)
        if known:
            E.log("KNOWN-FINDING: property=%s %s" % (ctx.prop, known.get("what", "")))
            continue
        path = E.write_replay(ctx.prop, {
            "property": ctx.prop, "configuration": cfgname, "script": text, "module": module, "options": [o for o in opts if not o.startswith("max=")],
            "trace": lines, "rejected_event_index": at, "rejected_event": ev,
            "meaning": "the real code performed this event, which the specification does not allow after the events before it",
            "replay": "python3 tools/check.py %s --replay <this file>" % ctx.prop})
        E.log("rejected event on %s (script %s): %s" % (cfgname, sid, ev[:400]))
        E.log("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        reported += 1
        if reported >= 3:
            break
    if unconfirmed and not reported:
        raise E.CheckError("rejections that did not repeat: %s" % unconfirmed[:3])
    return reported


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module(SPECIAL.get(a.prop) or COMPONENT[a.prop[0]])
    ctx = Ctx(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed)
    rc = 2
    try:
        if a.replay:
            with open(a.replay) as fh:
                d = json.load(fh)
            exe = mod.driver(ctx, d)
            c = ctx.confirm(exe, d["options"], d["script"], d["module"], mod.trace_cfg(d["module"]), None, d["configuration"])
            if c:
                E.log("\n".join(c[0][:c[1] + 1][-8:]))
                E.log("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            else:
                E.log("accepted")
            return 1 if c else 0
        mod.check(ctx)
        ctx.join_models()
        n = finish(ctx)
        st = ctx.stats
        cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["traces"],
               "samples": ctx.samples or ["none"], "impl_executions": st["traces_run"], "events_checked": st["events"],
               "scripts": st["scripts"], "models": st["models"]}
        cov.update(ctx.notes)
        E.write_evidence(a.prop, ctx.tier, ctx.seed, "model_checking", cov, ctx.elapsed(), ctx.assumptions, n)
        E.log("%s %s: %d violations; %d executions, %d distinct traces, %d events, %d spec states, %.1f s" % (
            a.prop, ctx.tier, n, st["traces_run"], st["traces"], st["events"], st["states"], ctx.elapsed()))
        rc = 1 if n else 0
    except E.CheckError as ex:
        E.log("CHECK-ERROR: %s" % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        for th, _, _ in ctx.bg:
            th.join()
        ctx.work.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
