"""Shared machinery: build drivers from /repo, run TLC, validate traces, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)
BASEFLAGS = ["-g", "-O1", "-std=gnu++14", "-fstack-reuse=none", "-pthread", "-w", "-I" + os.path.join(REPO, "src"), "-I" + HARN]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict on the code)."""


def log(*a):
    print(*a, flush=True)


class Work:
    """Scratch directory of one check run, removed at the end."""
    def __init__(self, name):
        base = os.environ.get("VERIF_SCRATCH") or os.path.join(VERIF, ".scratch")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + "-", dir=base)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- building

def _hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def repo_sources():
    r = []
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        if os.sep + "test" in root:
            continue
        r += [os.path.join(root, f) for f in fs if f.endswith((".h", ".cpp"))]
    return r


def build(work, name, units, libs=("-lmemtailor",), flags=(), sanitize=True):
    """units: list of (source, [extra flags]). Returns the path of the driver.
    Objects are cached in .cache by the hash of everything that can influence them."""
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    allsrc = repo_sources() + glob.glob(os.path.join(HARN, "*"))
    fl = BASEFLAGS + (ASAN if sanitize else []) + list(flags)
    key = _hash_files(allsrc, name + repr(units) + repr(fl) + repr(libs))
    exe = os.path.join(cache, "%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(cache, name + "-*")):
        try:
            if time.time() - os.path.getmtime(old) > 3600:
                os.remove(old)
        except OSError:
            pass

    def comp(k):
        src, ex = units[k]
        o = work.path("%s_%d.o" % (name, k))
        p = subprocess.run(["g++"] + fl + list(ex) + ["-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot compile %s %s:\n%s" % (src, ex, p.stdout[-3000:]))
        return o
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(comp, range(len(units))))
    tmp = exe + ".%d.tmp" % os.getpid()
    p = subprocess.run(["g++"] + (ASAN if sanitize else []) + ["-pthread"] + objs + list(libs) + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("cannot link %s:\n%s" % (name, p.stdout[-3000:]))
    os.replace(tmp, exe)
    for o in objs:
        os.remove(o)
    return exe


def run_driver(exe, scriptfile, outfile, opts=(), timeout=600):
    try:
        p = subprocess.run([exe, scriptfile, outfile] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("driver did not finish in %d s" % timeout)
    if p.returncode != 0:
        raise CheckError("driver failed (%d): %s" % (p.returncode, p.stdout[-2000:]))


def run_driver_parallel(work, exe, scripts, opts=(), tag="d", timeout=600):
    """scripts: list of (id, text). Returns list of (script id, config, [event lines])."""
    n = max(1, min(NPROC, len(scripts)))
    parts = [scripts[k::n] for k in range(n)]

    def one(k):
        sf, of = work.path("%s%d.scr" % (tag, k)), work.path("%s%d.out" % (tag, k))
        with open(sf, "w") as fh:
            fh.write("".join(t for _, t in parts[k]))
        run_driver(exe, sf, of, opts, timeout)
        r = read_traces(of)
        os.remove(of)
        os.remove(sf)
        return r
    with cf.ThreadPoolExecutor(n) as ex:
        res = []
        for r in ex.map(one, range(n)):
            res += r
    return res


def read_traces(path):
    traces = []
    cur = None
    with open(path, encoding="utf-8") as fh:
        for line in fh:
            if line.startswith("#"):
                sid, cfg = line[1:].rstrip("\n").split(" ", 1)
                cur = (sid, cfg, [])
                traces.append(cur)
            elif line.strip():
                cur[2].append(line.rstrip("\n"))
    return traces


# ---------------------------------------------------------------- TLC

RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
RE_SIM = re.compile(r"The number of states generated: (\d+)")


class TlcResult:
    pass


def tlc(work, module, cfg, workers=1, heap="1500m", timeout=800, env=None, args=(), tag=None, collect=None):
    """Runs TLC on spec/<module>.tla with the given cfg text or file."""
    tag = tag or module
    d = tempfile.mkdtemp(prefix="tlc-" + tag + "-", dir=work.dir)
    if "\n" in cfg:
        cfgfile = os.path.join(d, "run.cfg")
        with open(cfgfile, "w") as fh:
            fh.write(cfg)
    else:
        cfgfile = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfgfile] + list(args) + [os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(d, "out.txt")
    try:
        with open(outp, "w") as fh:
            p = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % tag)
    r = TlcResult()
    with open(outp, errors="replace") as fh:
        r.out = fh.read()
    r.rc = p.returncode
    r.ok = "Model checking completed. No error has been found." in r.out
    m = None
    for m in RE_STATES.finditer(r.out):
        pass
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = None
    for m in RE_SIM.finditer(r.out):
        pass
    if m:
        r.generated = int(m.group(1))
    shutil.rmtree(d, ignore_errors=True)
    return r


def model_check(work, jobs, stats, workers=2, timeout=800, par=3):
    """jobs: list of (label, module, cfg text, [extra args]). Any failure is an error of the check."""
    def one(j):
        label, module, cfg = j[0], j[1], j[2]
        args = list(j[3]) if len(j) > 3 else []
        r = tlc(work, module, cfg, workers=workers, heap="3g", timeout=timeout, tag=label, args=args)
        sim = "-simulate" in args
        good = (r.ok or (sim and r.rc == 0 and "Error" not in r.out))
        if not good:
            raise CheckError("model %s does not satisfy its properties:\n%s" % (label, r.out[-3500:]))
        return label, r
    with cf.ThreadPoolExecutor(par) as ex:
        for label, r in ex.map(one, jobs):
            stats["states"] += r.distinct
            stats["transitions"] += r.generated
            stats["models"].append({"model": label, "distinct": r.distinct, "generated": r.generated})


RE_REJECT = re.compile(r'<<"REJECT", (\d+), (\d+)>>')


RE_DEPTH = re.compile(r"The depth of the complete state graph search is (\d+)")


def validate_file(work, module, cfg, path, n, timeout=800, heap="2g", tag="trace"):
    """Returns None if accepted, otherwise the index (0-based) of the first rejected event."""
    r = tlc(work, module, cfg, workers=1, heap=heap, timeout=timeout, env={"TRACE": path}, tag=tag)
    m = RE_REJECT.search(r.out)
    if m:
        return int(m.group(1)) - 1, r
    if r.ok:
        return None, r
    m = RE_DEPTH.search(r.out)
    if m and ("TLC threw an unexpected exception" in r.out or "evaluat" in r.out) and "OutOfMemory" not in r.out:
        # the event does not even make sense to the specification in this state
        if os.environ.get("VERIF_DEBUG"):
            log(r.out[r.out.find("Error:"):][:1500])
        return int(m.group(1)) - 1, r
    raise CheckError("trace validation of %s failed to run:\n%s" % (module, r.out[max(0, r.out.find("Error")):][:3000]))


def validate(work, module, cfg, traces, stats, batch_events=12000, timeout=800, par=NPROC, heap="2g"):
    """traces: list of (sid, cfgname, lines). Deduplicates by content, checks in parallel batches.
    Returns list of rejections (sid, cfgname, lines, index of the rejected event)."""
    seen = {}
    uniq = []
    for t in traces:
        h = hashlib.md5("\n".join(t[2]).encode()).digest()
        if h not in seen:
            seen[h] = 1
            uniq.append(t)
    stats["traces_run"] = stats.get("traces_run", 0) + len(traces)
    stats["traces"] += len(uniq)
    stats["events"] = stats.get("events", 0) + sum(len(t[2]) for t in uniq)
    total = sum(len(t[2]) for t in uniq)
    # even batches, at least one per processor when there is enough work
    per = max(400, min(batch_events, total // par + 1))
    batches, cur, n = [], [], 0
    for t in uniq:
        cur.append(t)
        n += len(t[2])
        if n >= per:
            batches.append(cur)
            cur, n = [], 0
    if cur:
        batches.append(cur)
    stop = []

    def one(k):
        if stop:
            return []
        b = batches[k]
        rej = []
        while b and not stop:
            path = work.path("%s-b%d.ndjson" % (module, k))
            idx = []
            with open(path, "w") as fh:
                for ti, t in enumerate(b):
                    for ei, line in enumerate(t[2]):
                        fh.write(line + "\n")
                        idx.append((ti, ei))
            at, r = validate_file(work, module, cfg, path, len(idx), timeout=timeout, heap=heap, tag="%s%d" % (module, k))
            stats["states"] += r.distinct
            stats["transitions"] += r.generated
            os.remove(path)
            if at is None:
                break
            if at >= len(idx):
                raise CheckError("inconsistent rejection position")
            ti, ei = idx[at]
            rej.append((b[ti][0], b[ti][1], b[ti][2], ei))
            b = b[ti + 1:]
            if len(rej) >= 3:
                stop.append(1)
        return rej
    out = []
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(one, range(len(batches))):
            out += r
    return out


# ---------------------------------------------------------------- known findings, reporting

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh).get("findings", [])


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(data, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(s.encode()).hexdigest()[:12]))
    with open(p, "w") as fh:
        fh.write(s + "\n")
    return p


def write_evidence(prop, tier, seed, level, coverage, wall, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, fh, indent=1)
        fh.write("\n")
