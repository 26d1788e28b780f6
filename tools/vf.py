"""Shared machinery of the checks: content-addressed builds of /repo's current
sources, TLC runs, evidence files, verdicts."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
# Runs against another tree (experiments) leave the evidence about /repo alone.
OUT = VERIF if os.path.realpath(REPO) == "/repo" else os.path.join(BUILD, "elsewhere")
SPEC = os.path.join(VERIF, "spec")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TLA_CP = ":".join(["/opt/veriftools/tla/tla2tools.jar",
                   "/opt/veriftools/tla/CommunityModules-deps.jar"])


class CheckError(Exception):
    """The check itself failed: no verdict."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


# ---------------------------------------------------------------- building
SIMD = [("avx512", ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"]),
        ("avx2", ["-mavx2", "-mfma"]), ("avx", ["-mavx"])]

TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
        "-U_FORTIFY_SOURCE", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]

VARIANTS = {
    # name: (compiler, flags, use libcpuinfo header)
    "sched": ("g++", ["-O1", "-g"] + TSAN),
    "schedn": ("g++", ["-O1", "-g", "-DNDEBUG"] + TSAN),
    "plain": ("g++", ["-O2", "-g", "-DRUY_HAVE_CPUINFO"]),
    "blind": ("g++", ["-O2", "-g"]),
    "ndebug": ("g++", ["-O2", "-g", "-DNDEBUG", "-DRUY_HAVE_CPUINFO"]),
    "wrap": ("g++", ["-O1", "-g", "-fwrapv", "-DRUY_HAVE_CPUINFO"]),
    "asan": ("g++", ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DRUY_HAVE_CPUINFO"]),
    "prof": ("g++", ["-O1", "-g", "-DRUY_PROFILER"] + TSAN),
    "profplain": ("g++", ["-O1", "-g", "-DRUY_PROFILER"]),
    "reference": ("g++", ["-O2", "-g", "-DRUY_HAVE_CPUINFO", "-DVERIF_REFERENCE"]),
    "tracing": ("g++", ["-O1", "-g", "-DRUY_TRACE", "-DRUY_HAVE_CPUINFO"]),
    # builds of the same sources with other options and another compiler
    "opt_none": ("g++", ["-O0", "-g", "-DRUY_OPT_SET=0", "-DRUY_HAVE_CPUINFO"]),
    "opt_slim": ("clang++", ["-O2", "-g", "-DNDEBUG", "-DRUY_OPT_SET=(~0x8)", "-DRUY_HAVE_CPUINFO"]),
    "opt_linear": ("clang++", ["-O3", "-g", "-DRUY_OPT_SET=(~0x1ce5)", "-DRUY_HAVE_CPUINFO"]),
    "opt_native": ("g++", ["-O3", "-g", "-march=native", "-DRUY_PROFILER", "-DRUY_OPTIMIZE_FOR_MATMUL_BENCHMARK",
                           "-DRUY_HAVE_CPUINFO"]),
    "opt_trace": ("g++", ["-O2", "-g", "-std=c++17", "-DRUY_TRACE", "-DRUY_OPT_SET=(~0x2)", "-DRUY_HAVE_CPUINFO"]),
    "nopackahead": ("g++", ["-O1", "-g", "-DRUY_OPT_SET=0xffffff7f"] + TSAN),
}
WARN = ["-w"]


def repo_sources(profiler=False):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "ruy", "*.cc"))):
        b = os.path.basename(f)
        if b.endswith("_test.cc") or b.startswith("test_") or b in ("benchmark.cc", "pmu.cc"):
            continue
        if "_arm" in b:
            continue
        out.append(f)
    if profiler:
        for f in sorted(glob.glob(os.path.join(REPO, "ruy", "profiler", "*.cc"))):
            b = os.path.basename(f)
            if b.startswith("test"):
                continue
            out.append(f)
    return out


_hdr_hash = {}


def headers_hash():
    if "h" not in _hdr_hash:
        h = hashlib.sha256()
        pats = [os.path.join(REPO, "ruy", "*.h"), os.path.join(REPO, "ruy", "profiler", "*.h"),
                os.path.join(VERIF, "rt", "*.h"), os.path.join(VERIF, "harness", "*.h")]
        for p in pats:
            for f in sorted(glob.glob(p)):
                h.update(os.path.relpath(f, "/").encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
        _hdr_hash["h"] = h.hexdigest()
    return _hdr_hash["h"]


def compile_one(src, compiler, flags):
    b = os.path.basename(src)
    fl = list(flags)
    if src.startswith(REPO):
        for tag, simd in SIMD:
            if tag in b:
                fl += simd
                break
    cmd = [compiler, "-std=c++14", "-I", REPO, "-I", os.path.join(VERIF, "rt"),
           "-I", os.path.join(VERIF, "harness")] + WARN + fl
    with open(src, "rb") as fh:
        key = hashlib.sha256((" ".join(cmd) + src + headers_hash()).encode() + fh.read()).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", b.replace(".cc", "") + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise CheckError("compilation failed: %s\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


RT = ["rt/rt.cc", "rt/driver.cc"]


def build(variant, name, harness, repo_filter=None, **kw):
    """Builds with the sources selected by repo_filter; when these no longer link
    (code moved between files), with all of them."""
    if repo_filter is not None:
        try:
            return build_exact(variant, name, harness, repo_filter, **kw)
        except LinkError:
            pass
    return build_exact(variant, name, harness, None, **kw)


class LinkError(CheckError):
    pass


def build_exact(variant, name, harness, repo_filter=None, rt=False, profiler=False, libs=(), extra_flags=(),
          link_flags=(), extra_sources=()):
    """Builds executable `name` from /repo's sources plus harness files."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    compiler, flags = VARIANTS[variant]
    jobs = []
    for s in repo_sources(profiler):
        if repo_filter is None or repo_filter(os.path.relpath(s, os.path.join(REPO, "ruy"))):
            jobs.append((s, compiler, flags + list(extra_flags)))
    for s in harness:
        jobs.append((os.path.join(VERIF, "harness", s), compiler, flags + list(extra_flags)))
    if rt:
        for s in RT:
            jobs.append((os.path.join(VERIF, s), "g++", ["-std=c++17", "-O2", "-g"]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha256(" ".join(objs + list(libs) + list(link_flags)).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        link = [compiler] + (["-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove"] if rt else [])
        link += [f for f in flags if f == "-fsanitize=address"]
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(link + objs + list(link_flags) + ["-o", tmp] + list(libs) + ["-ldl", "-lpthread"])
        if r.returncode != 0:
            raise LinkError("link failed: %s\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- scratch
def workdir(prop):
    d = os.path.join(BUILD, "work", prop + "-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def drop_workdir(d):
    if d.startswith(os.path.join(BUILD, "work") + os.sep):
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = rc == 0 and "No error has been found" in out or (rc == 0 and "simulation" in out.lower())
        self.rejected = None
        m = re.search(r'<<"REJECTED", (\d+)>>', out)
        if m:
            self.rejected = int(m.group(1))
        m = re.search(r"Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None
        if not self.invariant:
            m = re.search(r"Error: Action property (\S+)|Error: (Temporal properties) were violated|(Deadlock reached)",
                          out)
            if m:
                self.invariant = next(g for g in m.groups() if g)
                if self.invariant == "line":
                    self.invariant = "refinement"
        self.reasons = re.findall(r'<<"(?:WHY|BAD)", .*?>>', out)


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="3g", props=()):
    meta = os.path.join(BUILD, "tlc", "%s-%d-%s" % (module, os.getpid(), hashlib.md5(os.urandom(8)).hexdigest()[:8]))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    java = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-Xss64m",
            "-Xmx" + heap] + list(props) + ["-cp", TLA_CP + ":" + os.path.join(BUILD, "java"), "tlc2.TLC"]
    cmd = java + ["-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
                  "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    t0 = time.time()
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out, time.time() - t0)


VIOLATION_RCS = (10, 11, 12, 13)


def model_check(ctx, module, cfg=None, workers=JOBS, env=None, args=(), timeout=800, heap="8g"):
    """Exhaustive check of the design model. A failure is a defect of the model,
    not of /repo, and therefore an error of the check."""
    r = tlc(module, cfg, env=env, workers=workers, args=args, timeout=timeout, heap=heap)
    if not r.ok:
        raise CheckError("model %s/%s does not check:\n%s" % (module, cfg, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append({"model": module, "config": cfg or module, "distinct_states": r.distinct,
                       "transitions": r.generated, "wall_s": round(r.wall, 1)})
    return r


def model_mutants(ctx, module, cfgs, env=None, timeout=300):
    """Faulty designs that the specification must reject: a check of the
    specification's own strength."""
    def one(cfg):
        r = tlc(module, cfg, env=env, workers=2, timeout=timeout, heap="3g")
        if r.ok or not r.invariant:
            raise CheckError("faulty design %s/%s is not rejected:\n%s" % (module, cfg, r.out[-2000:]))
        return cfg, r
    for cfg, r in run_parallel([lambda c=c: one(c) for c in cfgs]):
        ctx.extra.setdefault("faulty_designs_rejected", []).append("%s: %s" % (cfg, r.invariant))


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.trace_events = 0
        self.samples = []
        self.models = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.incomplete = False
        self.failed = None
        self.dir = workdir(prop)
        self.budget = 600 if tier == "thorough" else 100

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, what, detail):
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what,
                       "detail": detail}, f, indent=1)
        self.violations.append((what, path))

    def unconfirmed(self, what):
        """A rejection that does not happen again is no verdict, but neither may
        the check then claim that the property held."""
        self.extra.setdefault("unconfirmed", []).append(what)

    def evidence(self, level):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.trace_events, "models": self.models,
               "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(self.elapsed(), 2), "assumptions": self.assumptions,
              "violations": len(self.violations)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        p = os.path.join(OUT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


# ------------------------------------------------- controlled-scheduler traces
def split_jobs(jobs, shards):
    """Distributes job lines (with count=) over shards."""
    out = [[] for _ in range(shards)]
    k = 0
    for j in jobs:
        m = re.search(r"count=(\d+)", j)
        n = int(m.group(1)) if m else 1
        if "mode=dfs" in j or n < shards:
            out[k % shards].append(j)
            k += 1
            continue
        seed = int(re.search(r"seed=(\d+)", j).group(1))
        per = n // shards
        done = 0
        for s in range(shards):
            c = per if s < shards - 1 else n - done
            out[s].append(re.sub(r"count=\d+", "count=%d" % c, re.sub(r"seed=\d+", "seed=%d" % (seed + done), j)))
            done += c
    return out


def run_parallel(fns, ctx=None):
    """With ctx, a failure of one is kept for later, in case the others find a
    violation."""
    def get(f):
        try:
            return f.result()
        except CheckError as e:
            if ctx is None:
                raise
            ctx.failed = ctx.failed or e
            return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(f) for f in fns]
        return [get(f) for f in fs]


def run_harness(exe, args, timeout=600, env=None, ok=(0,)):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = sh([exe] + list(args), timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out: %s %s" % (exe, args))
    if r.returncode not in ok:
        raise CheckError("harness failed rc=%d: %s\n%s" % (r.returncode, exe, r.stdout[-3000:]))
    return r


def iter_executions(path):
    """Yields (first_line_no, [lines]) of each begin..end execution."""
    cur, start = [], 0
    with open(path) as f:
        for i, line in enumerate(f, 1):
            if '"k":"begin"' in line:
                cur, start = [], i
            cur.append(line)
            if '"k":"end"' in line:
                yield start, cur
                cur = []


def validate_trace(module, path, cfg=None, env=None, timeout=800):
    e = {"TRACE": path}
    if env:
        e.update(env)
    r = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap="4g")
    if r.ok:
        return r
    if r.rejected is None and not r.invariant:
        raise CheckError("TLC failed on trace %s:\n%s" % (path, r.out[-3000:]))
    return r


def sched_check(ctx, exe, module, jobs, cfg=None, tag=""):
    """Runs jobs on the controlled scheduler, validates every trace with TLC.
    A rejected execution is re-run and re-validated before it is reported."""
    if ctx.violations:
        return
    shards = split_jobs(jobs, JOBS)
    paths = []

    def one(i):
        if not shards[i]:
            return None
        jf = os.path.join(ctx.dir, "jobs%s-%d" % (tag, i))
        of = os.path.join(ctx.dir, "trace%s-%d.ndjson" % (tag, i))
        with open(jf, "w") as f:
            f.write("\n".join(shards[i]) + "\n")
        r = run_harness(exe, [jf, of])
        m = re.search(r"execs (\d+) distinct (\d+)", r.stdout)
        dfs = re.findall(r"dfs-complete (\S+) (\S+) (\d+)", r.stdout)
        cut = re.findall(r"dfs-cut (\S+) (\S+) (\d+)", r.stdout)
        if "stopped" in r.stdout:
            ctx.incomplete = True
        return (of, int(m.group(1)), dfs, cut)

    def examine(of):
        """Validates all executions of a file: after a rejected one, the ones
        that follow it."""
        execs = list(iter_executions(of))
        results, bad, n = [], [], 0
        while n < len(execs) and len(bad) < 4:
            path = of
            if n:
                path = of + ".rest"
                with open(path, "w") as f:
                    for _, lines in execs[n:]:
                        f.writelines(lines)
            v = validate_trace(module, path, cfg)
            results.append(v)
            if v.ok:
                n = len(execs)
                break
            at = v.rejected or 1
            for k in range(n, len(execs)):
                at -= len(execs[k][1])
                if at <= 0:
                    break
            else:
                raise CheckError("cannot locate rejected line %s in %s" % (v.rejected, path))
            bad.append(execs[k])
            n = k + 1
        return results, bad, execs, n

    res = [r for r in run_parallel([lambda i=i: one(i) for i in range(JOBS)], ctx) if r]
    exs = run_parallel([lambda r=r: examine(r[0]) for r in res], ctx)
    for (of, ran, dfs, cut), x in zip(res, exs):
        if x is None:
            continue
        results, bad, execs, n = x
        ctx.traces += n
        ctx.extra["executions"] = ctx.extra.get("executions", 0) + ran
        ctx.extra.setdefault("exhausted_bounded_scenarios", []).extend(
            ["%s %s: %s schedules" % tuple(d) for d in dfs])
        ctx.extra.setdefault("bounded_scenarios_cut_short", []).extend(
            ["%s %s: %s schedules" % tuple(d) for d in cut])
        for v in results:
            ctx.states += v.distinct
            ctx.transitions += v.generated
        ctx.trace_events += sum(len(lines) for _, lines in execs[:n])
        if not bad and execs and len(ctx.samples) < 3:
            lines = execs[0][1]
            ctx.samples.append({"execution": json.loads(lines[0]), "events": len(lines),
                                "first_events": [x.strip() for x in lines[1:13]]})
        for x in bad:
            if len(ctx.violations) < (1 if '"out":"hang"' in x[1][-1] else 3):
                confirm(ctx, exe, module, cfg, x, shards)
        if n < len(execs):
            ctx.incomplete = True


def confirm(ctx, exe, module, cfg, bad, shards):
    st, lines = bad
    head = json.loads(lines[0])
    job = None
    for s in shards:
        for j in s:
            kv = dict(x.split("=", 1) for x in j.split())
            if kv.get("id", "0") == head["job"]:
                job = kv
                break
        if job:
            break
    job = dict(job)
    job["seed"] = str(head["seed"])
    job["count"] = "1"
    if head["prefix"]:
        job["prefix"] = head["prefix"]
    jf = os.path.join(ctx.dir, "confirm.job")
    of = os.path.join(ctx.dir, "confirm.ndjson")
    with open(jf, "w") as f:
        f.write(" ".join("%s=%s" % kv for kv in job.items()) + "\n")
    run_harness(exe, [jf, of])
    r2 = validate_trace(module, of, cfg)
    if r2.ok:
        ctx.unconfirmed({"job": job, "event": lines[-1].strip()})
        return
    with open(of) as f:
        tl = f.readlines()
    ev = tl[(r2.rejected or 1) - 1].strip()
    ctx.violation("execution rejected by %s at event %s" % (module, ev),
                  {"job": job, "harness": os.path.basename(exe), "rejected_line": r2.rejected, "event": ev,
                   "trace": [x.strip() for x in tl[max(0, (r2.rejected or 1) - 60):(r2.rejected or 1) + 1]],
                   "outcome": json.loads(tl[-1])})


# ---------------------------------------------------------------- main
def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn = registry[a.prop]
    ctx = Ctx(a.prop, a.tier, seed)
    try:
        try:
            fn(ctx)
        except CheckError as e:
            ctx.failed = ctx.failed or e
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
        ctx.evidence(getattr(fn, "level", "model_checking"))
        if ctx.violations:
            for what, path in ctx.violations:
                print("# " + what[:600])
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if ctx.failed:
            raise ctx.failed
        if "unconfirmed" in ctx.extra:
            raise CheckError("rejected, but not again when repeated: %s" % json.dumps(ctx.extra["unconfirmed"])[:3000])
        if ctx.incomplete:
            raise CheckError("some histories were not validated")
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (a.prop, ctx.states, ctx.traces, ctx.elapsed()))
        return 0
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal" % a.prop)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            drop_workdir(ctx.dir)
