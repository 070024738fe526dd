"""Shared machinery of the checks: building /repo, running TLC, running the
harnesses, validating traces, reporting."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Stop(Exception):
    """Enough: a violation has been confirmed."""


class CheckError(Exception):
    """The check itself failed (not a verdict on the code)."""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")


# ----------------------------------------------------------------- building
VARIANTS = {
    # name: (flags for /repo sources, flags for harness, link flags)
    "sched": (["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"], ["-rdynamic", "-ldl"]),
    "asan": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-omit-frame-pointer", "-fno-sanitize=vptr,null"],
             ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-omit-frame-pointer", "-fno-sanitize=vptr,null"],
             ["-fsanitize=address,undefined", "-rdynamic", "-ldl"]),
    "plain": (["-O1", "-g1"], ["-O1", "-g1"], ["-rdynamic", "-ldl"]),
}
BACKENDS = ("nlohmann", "rapid", "jsoncpp")


def _hash_files(files):
    h = hashlib.sha1()
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h


def repo_sources(backend):
    out = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(f)
        if b.endswith("_test.cpp"):
            continue
        if b.endswith("_json_serializer.cpp") and not b.startswith((backend + "_", "null_")):
            continue
        out.append(f)
    return out


def _headers():
    return [f for f in glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/include/**/*.h", recursive=True)]


def _compile(cmd, out):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp.o" % os.getpid()
    rc, so, se = sh(cmd + ["-o", tmp], timeout=800)
    if rc != 0:
        raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), se[-4000:]))
    os.rename(tmp, out)


def build(variant, backend, harness, extra_src=(), repo_only=None, defs=()):
    """Builds harness/<harness>.cpp against /repo's working tree. Returns the
    path of the executable. Everything is keyed by content."""
    rflags, hflags, lflags = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    hdr = _hash_files(_headers()).hexdigest()
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/jsoncpp", "-I" + HARNESS]
    bdef = ["-DCPPDAP_JSON_%s=1" % backend.upper()]
    jobs = []
    objs = []
    srcs = repo_sources(backend)
    if repo_only is not None:
        srcs = [s for s in srcs if os.path.basename(s) in repo_only]
    for s in srcs:
        fl = list(rflags)
        b = os.path.basename(s)
        if b.startswith("protocol_"):
            # field tables: large, sequential code
            fl = [f for f in fl if f not in ("-O1", "-fsanitize=thread")] + ["-O0"]
        cmd = ["g++", "-std=c++11", "-w", "-c", s] + fl + inc + bdef
        key = hashlib.sha1((hdr + " ".join(cmd) + _hash_files([s]).hexdigest()).encode()).hexdigest()[:20]
        o = "%s/obj/%s-%s.o" % (BUILD, b[:-4], key)
        objs.append(o)
        jobs.append((cmd, o))
    hh = _hash_files(glob.glob(HARNESS + "/*.h") + glob.glob(HARNESS + "/*.inc")).hexdigest()
    for h in [harness] + list(extra_src):
        s = HARNESS + "/" + h + ".cpp"
        fl = hflags if h != "vsched" else ["-O2"]
        if h.startswith("h_dap"):
            fl = [f for f in fl if f != "-O1"] + ["-O0"]
        cmd = ["g++", "-std=c++17", "-w", "-c", s] + list(fl) + inc + bdef + list(defs)
        key = hashlib.sha1((hdr + hh + " ".join(cmd) + _hash_files([s]).hexdigest()).encode()).hexdigest()[:20]
        o = "%s/obj/%s-%s.o" % (BUILD, h, key)
        objs.append(o)
        jobs.append((cmd, o))
    # the slow ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][j[0].index("-c") + 1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_compile, c, o) for c, o in jobs]:
            f.result()
    key = hashlib.sha1(" ".join(objs + lflags).encode()).hexdigest()[:20]
    exe = "%s/%s-%s-%s-%s" % (BUILD, harness, variant, backend, key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, so, se = sh(["g++", "-o", tmp] + objs + lflags + ["-ljsoncpp", "-lpthread"])
        if rc != 0 and repo_only is not None:
            # something moved to another file: take all of them
            return build(variant, backend, harness, extra_src, None, defs)
        if rc != 0:
            raise CheckError("link failed: " + se[-4000:])
        os.rename(tmp, exe)
    return exe


def prune_build(limit=3 << 30):
    """Keeps the cache bounded."""
    try:
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in
              glob.glob(BUILD + "/obj/*") + [p for p in glob.glob(BUILD + "/*") if os.path.isfile(p)]]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(f)
            tot -= s
        except OSError:
            pass


# ---------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
        if not m:
            m = re.findall(r"(\d+) states generated.*?(\d+) distinct states", out.replace(",", ""))
        self.transitions = int(m[-1][0]) if m else 0
        self.states = int(m[-1][1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or (
            "Simulation" in out and rc == 0)


def tlc(spec, cfg=None, env=None, workers=1, timeout=600, args=(), heap="2g", deque=False, spec_dir=SPEC):
    md = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + md]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
                "-config", cfg or (spec + ".cfg")] + list(args) + [spec + ".tla"]
        t0 = time.time()
        rc, so, se = sh(cmd, timeout=timeout, env=env, cwd=spec_dir)
        if rc == -999:
            raise CheckError("TLC timed out on %s" % spec)
        return TlcResult(rc, so + se, time.time() - t0)
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_ok(spec, cfg=None, **kw):
    r = tlc(spec, cfg, **kw)
    if not r.ok:
        raise CheckError("model %s/%s failed:\n%s" % (spec, cfg, r.out[-3000:]))
    return r


# ----------------------------------------------------------- trace checking
def validate(spec, traces, cfg=None, env=None, timeout=600, chunks=None, heap="3g"):
    """traces: list of dicts (each with 'ev'). Returns (rejects, stats): rejects
    is a list of (trace, furthest event index)."""
    if not traces:
        return [], dict(states=0, transitions=0, traces=0)
    tmp = tempfile.mkdtemp(prefix="vt-")
    try:
        n = chunks or max(1, min(JOBS, (len(traces) + 199) // 200))
        parts = [traces[i::n] for i in range(n)]

        def one(i):
            f = "%s/t%d.ndjson" % (tmp, i)
            with open(f, "w") as fh:
                for t in parts[i]:
                    fh.write(json.dumps({"ev": t["ev"], "prog": t.get("prog", 0)}) + "\n")
            e = dict(env or {})
            e["VTRACE"] = f
            r = tlc(spec, cfg, env=e, timeout=timeout, deque=True, heap=heap)
            m = re.search(r'<<"BATCH", (\d+)>>', r.out)
            if not m or int(m.group(1)) != len(parts[i]) or not r.ok:
                raise CheckError("trace validation with %s failed:\n%s" % (spec, r.out[-3000:]))
            rej = [(parts[i][int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r.out)]
            return rej, r
        rejects, st, tr = [], 0, 0
        with cf.ThreadPoolExecutor(n) as ex:
            for rej, r in ex.map(one, range(n)):
                rejects += rej
                st += r.states
                tr += r.transitions
        return rejects, dict(states=st, transitions=tr, traces=len(traces))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------ sched harness
def sched_batch(exe, what, seed, runs, extra=(), jobs=None, timeout=600, seconds=0):
    """Runs `runs` schedules split over processes; returns (traces, stats)."""
    jobs = jobs or JOBS
    tmp = tempfile.mkdtemp(prefix="vb-")
    try:
        def one(i):
            out = "%s/o%d" % (tmp, i)
            n = len(range(i, runs, jobs))
            cmd = [exe, what, "--out", out, "--seed", str(seed), "--first", str(i), "--stride", str(jobs),
                   "--runs", str(n), "--seconds", str(seconds)] + list(extra)
            rc, so, se = sh(cmd, timeout=timeout)
            if rc in (77, -4, -6, -7, -8, -11) and not (os.path.exists(out) and os.path.getsize(out)):
                # the code under test brought the harness itself down before the first run
                return [dict(run=i, prog=0, ev=[dict(e="Crash", sig=max(0, -rc), code=max(0, rc))],
                             _cmd=cmd[1:2] + ["--seed", str(seed), "--only", str(i)] + list(extra))], dict(runs=1, crashes=1)
            if rc != 0:
                raise CheckError("harness %s failed rc=%s %s %s" % (exe, rc, so[-500:], se[-1500:]))
            st = json.loads(so.strip().splitlines()[-1])
            tr = []
            with open(out, errors="replace") as fh:
                for line in fh:
                    try:
                        t = json.loads(line)
                    except ValueError:
                        raise CheckError("bad trace line: " + line[:300])
                    t["_cmd"] = cmd[1:2] + ["--seed", str(seed), "--only", str(t["run"])] + list(extra)
                    tr.append(t)
            return tr, st
        traces, stats = [], {}
        seen = set()
        with cf.ThreadPoolExecutor(jobs) as ex:
            for tr, st in ex.map(one, range(jobs)):
                for t in tr:
                    k = hashlib.sha1(json.dumps([t["prog"], t["ev"]]).encode()).digest()
                    if k not in seen:
                        seen.add(k)
                        traces.append(t)
                for k, v in st.items():
                    stats[k] = (stats.get(k, True) and v) if isinstance(v, bool) else stats.get(k, 0) + v
        stats["distinct"] = len(traces)
        return traces, stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- reporting
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0,
                        distinct_nontrivial=0, samples=[], rule="", parts=[])
        self.violations = []
        self.assumptions = []
        self.level = "model_checking"
        self.thorough = tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def part(self, name, **kw):
        kw["part"] = name
        kw["at_s"] = round(time.time() - self.t0, 1)
        self.cov["parts"].append(kw)
        log("[%s] %s %s" % (self.prop, name, {k: v for k, v in kw.items() if k != "part"}))

    def model(self, spec, cfg=None, **kw):
        r = tlc_ok(spec, cfg, **kw)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.part("model %s" % (cfg or spec), states=r.states, transitions=r.transitions, wall=round(r.wall, 1))
        return r

    def model_must_fail(self, spec, cfg, **kw):
        """A deliberately wrong model: the invariants have to reject it."""
        r = tlc(spec, cfg, **kw)
        if "is violated" not in r.out:
            raise CheckError("the wrong model %s was not rejected:\n%s" % (cfg, r.out[-2000:]))
        self.part("wrong model %s rejected" % cfg, wall=round(r.wall, 1))

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def violation(self, what, detail):
        os.makedirs(VERIF + "/replay", exist_ok=True)
        p = "%s/replay/%s-%d.json" % (VERIF, self.prop, len(self.violations) + 1)
        with open(p, "w") as fh:
            json.dump(dict(property=self.prop, what=what, detail=detail), fh, indent=1, default=str)
        self.violations.append((what, p))

    def finish(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for what, p in self.violations[:5]:
            log("violation: " + what)
        if self.violations:
            log("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        log("OK %s (%.1fs)" % (self.prop, time.time() - self.t0))
        return 0


def check_traces(ctx, name, spec, exe, what, runs, cfg=None, env=None, extra=(), max_validate=None,
                 nontrivial=None, seed=None, jobs=None, timeout=800):
    """The whole code->spec direction for one harness program: explore
    schedules, validate all distinct traces, confirm rejections by re-running."""
    seed = ctx.seed if seed is None else seed
    seconds = ctx.pick(100, 3000)
    timeout = max(timeout, ctx.pick(0, 3600))
    traces, st = sched_batch(exe, what, seed, runs, extra, jobs=jobs, timeout=timeout, seconds=seconds)
    sel = traces if not max_validate or len(traces) <= max_validate else traces[:max_validate]
    bad_end = [t for t in traces if t["ev"] and t["ev"][-1].get("e") in ("Crash", "Deadlock", "Livelock", "Leftover", "Hang")]
    if len(sel) < len(traces):
        ids = set(id(t) for t in sel)
        sel = sel + [t for t in bad_end if id(t) not in ids][:50]
    rejects, vs = validate(spec, sel, cfg, env=env, timeout=timeout)
    ctx.cov["states"] += vs["states"]
    ctx.cov["transitions"] += vs["transitions"]
    ctx.cov["traces_validated_against_impl"] += len(sel)
    ctx.cov["evaluations"] += st["runs"]
    nt = sum(1 for t in sel if (nontrivial(t) if nontrivial else len(t["ev"]) > 6))
    ctx.cov["distinct_nontrivial"] += nt
    ctx.part(name, runs=st["runs"], distinct=st["distinct"], validated=len(sel), rejected=len(rejects),
             steps=st.get("steps", 0), crashes=st.get("crashes", 0), deadlocks=st.get("deadlocks", 0),
             livelocks=st.get("livelocks", 0), nontrivial=nt)
    if sel:
        ctx.sample(dict(part=name, prog=sel[len(sel) // 2]["prog"], events=sel[len(sel) // 2]["ev"][:12]))
    if rejects:
        confirm(ctx, name, spec, exe, what, runs, rejects, cfg, env, extra, seed, jobs, timeout, seconds)
        if ctx.violations:
            raise Stop()
    return traces


def confirm(ctx, name, spec, exe, what, runs, rejects, cfg, env, extra, seed, jobs, timeout, seconds):
    # 1. the verdict on the recorded trace must repeat
    rejects.sort(key=lambda r: len(r[0]["ev"]))
    rej2, _ = validate(spec, [r[0] for r in rejects[:20]], cfg, env=env, timeout=timeout)
    if not rej2:
        raise CheckError("rejections of %s did not repeat in TLC" % name)
    rej2.sort(key=lambda r: len(r[0]["ev"]))
    # 2. the execution must repeat, alone ...
    def key(t):
        return json.dumps([t["prog"], t["ev"]])

    def alone(r):
        try:
            tr, _ = sched_batch(exe, what, seed, 1, list(extra) + ["--only", str(r[0]["run"])], jobs=1, timeout=timeout)
        except CheckError:
            return False
        return any(key(t) == key(r[0]) for t in tr)
    with cf.ThreadPoolExecutor(4) as ex:
        four = rej2[:4]
        again = [r for r, ok in zip(four, ex.map(alone, four)) if ok]
    # ... or in the same batch
    if not again:
        traces, _ = sched_batch(exe, what, seed, runs, extra, jobs=jobs, timeout=timeout, seconds=seconds)
        keys = {key(t) for t in traces}
        again = [r for r in rej2 if key(r[0]) in keys]
        if not again:
            again, _ = validate(spec, traces, cfg, env=env, timeout=timeout)
            if not again:
                raise CheckError("rejected executions of %s did not repeat" % name)
    t, l = min(again, key=lambda r: len(r[0]["ev"]))
    ctx.violation("%s: recorded execution is not a behaviour of %s (event %d of %d: %s)" % (
        name, spec, l, len(t["ev"]), json.dumps(t["ev"][l - 1]) if l <= len(t["ev"]) else "end"),
        dict(harness=os.path.basename(exe), args=t.get("_cmd"), prog=t["prog"], rejected_at=l, trace=t["ev"],
             spec=spec, count=len(rejects)))
