"""R03: traces tell what happened."""
import json, os, random, re, subprocess
import vf
from . import PREBUILD, check


def exe():
    return vf.build("tracing", "tracing", ["tracing.cc"], None, libs=["-lcpuinfo"])


PREBUILD += [exe]
TYPES = [("float", "float", "float"), ("int8_t", "int8_t", "int32_t"), ("uint8_t", "uint8_t", "int32_t"),
         ("double", "double", "double"), ("int16_t", "int8_t", "int32_t")]
ORD = ["column-major", "row-major"]
MAT = r"(\d+)x(\d+), (row-major|column-major), (?:unstrided|stride=(\d+))(?:, zero_point=(-?\d+))?(?:, cache_policy=(\d+))?"


def mat(g):
    return {"rows": int(g[0]), "cols": int(g[1]), "ord": g[2], "st": int(g[3]) if g[3] else -1, "zp": int(g[4] or 0),
            "cp": int(g[5] or 0)}


def side(x):
    return 1 if x == "LHS" else 2


LINES = [(re.compile(p + "$"), f) for p, f in [
    (r"CompiledPaths: .+", lambda g: {"k": "compiled"}),
    (r"(LHS|RHS|Destination): Matrix<(\w+)>, " + MAT, lambda g: dict(mat(g[2:]), k="matrix", who=g[0], ty=g[1])),
    (r"(LHS|RHS|Destination): EMat, data_type=(\w+), " + MAT, lambda g: dict(mat(g[2:]), k="emat", who=g[0], ty=g[1])),
    (r"Runtime-selected path: (\w+)", lambda g: {"k": "selected", "path": g[0]}),
    (r"Path: (\w+)", lambda g: {"k": "path", "path": g[0]}),
    (r"Here we have this Path as a template parameter: (\w+)", lambda g: {"k": "path", "path": g[0]}),
    (r"SetRuntimeEnabledPaths forcing paths: (.+)", lambda g: {"k": "forced", "paths": g[0].split(" | ")}),
    (r"Accumulation depth: (\d+)", lambda g: {"k": "depth", "n": int(g[0])}),
    (r"Entering the (simple loop|general case) code path of TrMul", lambda g: {"k": "chosen", "how": g[0].split()[0]}),
    (r"Caching the packed (LHS|RHS) matrix\. Already in cache: (yes|no)",
     lambda g: {"k": "caching", "s": side(g[0]), "hit": g[1] == "yes"}),
    (r"Not caching the packed (LHS|RHS) matrix\.", lambda g: {"k": "notcaching", "s": side(g[0])}),
    (r"BlockMap has (\d+)x(\d+) blocks, .*", lambda g: {"k": "grid", "n": [int(x) for x in g]}),
    (r"The first (\d+) rows of blocks have (\d+) rows, the remaining ones have (\d+) rows *",
     lambda g: {"k": "large", "x": [int(x) for x in g]}),
    (r"The first (\d+) columns of blocks have (\d+) columns, the remaining ones have (\d+) columns *",
     lambda g: {"k": "large", "x": [int(x) for x in g]}),
    (r"Finalized thread count: (\d+)", lambda g: {"k": "count", "n": int(g[0])}),
    (r"Sending task #(\d+) to a worker thread\.\.\.", lambda g: {"k": "send", "n": int(g[0])}),
    (r"Block #(\d+) has shape (\d+)x(\d+) and starts at position \((\d+), (\d+)\) in the destination matrix\.",
     lambda g: {"k": "shape", "id": int(g[0]), "sh": [int(g[1]), int(g[2])], "at": [int(g[3]), int(g[4])]}),
    (r"Block #(\d+) depends on LHS panel #(\d+) and RHS panel #(\d+)\.",
     lambda g: {"k": "depends", "id": int(g[0]), "p": [int(g[1]), int(g[2])]}),
    (r"(LHS|RHS) panel #(\d+) is not already packed\. Packing it now\.",
     lambda g: {"k": "packing", "s": side(g[0]), "p": int(g[1])}),
    (r"(LHS|RHS) panel #(\d+) had previously been packed\.", lambda g: {"k": "had", "s": side(g[0]), "p": int(g[1])}),
    (r"(LHS|RHS) panel #(\d+) has just been packed by another thread\.",
     lambda g: {"k": "just", "s": side(g[0]), "p": int(g[1])}),
    (r"(LHS|RHS) panel #(\d+) is currently being packed by another thread\.",
     lambda g: {"k": "busy", "s": side(g[0]), "p": int(g[1])}),
    (r"Source: columns \[(\d+), (\d+)\) of EMat, data_type=(\w+), " + MAT,
     lambda g: dict(mat(g[3:]), k="source", a=int(g[0]), b=int(g[1]), ty=g[2])),
    (r"Destination: block \[(\d+), (\d+)\)x\[(\d+), (\d+)\) of EMat, data_type=(\w+), " + MAT,
     lambda g: dict(mat(g[5:]), k="kernel", a=int(g[0]), b=int(g[1]), c=int(g[2]), d=int(g[3]), ty=g[4])),
    (r"The kernel's inner loop only produces a (\d+)x(\d+) block, so the kernel's outer loops will run (\d+)x(\d+) times\.",
     lambda g: {"k": "loops", "kr": int(g[0]), "kc": int(g[1]), "m": int(g[2]), "n": int(g[3])}),
]]
CLOSE = re.compile(r"\}  // end of (.*)$")


def parse(text, html):
    """The trace's lines as events."""
    out = []
    if html:
        start, stop = r'<span style="background-color:#[0-9A-F]{6}">', "</span>"
    else:
        start, stop = r"\x1b\[\d+m", r"\x1b\[0m"
    line_re = re.compile("^" + start + r"(\S+:\d+ *)(.*)" + stop + "$")
    furniture = {"<html><body><pre>", '<span style="font-weight:bold">', "</span>", "</pre></body></html>"} if html else set()
    for line in text.split("\n"):
        m = re.match(r"Ruy trace for thread (-?\d+):$", line)
        if m:
            out.append({"k": "thr", "id": int(m.group(1))})
            continue
        if line == "" or line in furniture:
            continue
        m = line_re.match(line)
        if not m or len(m.group(1)) + len(m.group(2)) < 33:
            out.append({"k": "malformed", "line": line[:200]})
            continue
        rest = (m.group(1) + m.group(2))[32:]
        if html:
            if "<" in rest or ">" in rest:
                out.append({"k": "malformed", "line": line[:200]})
                continue
            rest = rest.replace("&lt;", "<").replace("&gt;", ">")
        body = rest.lstrip(" ")
        ind, odd = divmod(len(rest) - len(body), 2)
        ev = None
        m = CLOSE.match(body)
        if odd:
            ev = {"k": "malformed", "line": line[:200]}
        elif m:
            ev = {"k": "close", "name": m.group(1)}
        elif body.endswith(" {"):
            ev = {"k": "open", "name": body[:-2]}
        else:
            for rx, f in LINES:
                m = rx.match(body)
                if m:
                    ev = f(m.groups())
                    break
            if ev is None:
                ev = {"k": "other"}
        ev["ind"] = ind
        out.append(ev)
    return out


def program(r, big):
    """A script and the calls it makes."""
    lines, calls = [], []
    en, mx, age, ctx = None, 1, 0, 1
    views = []
    for _ in range(r.randint(1, 5)):
        if en is None or r.random() < 0.4:
            en = r.choice([1, 2, 4, 8, 4, 8, 0x10, 0x20, 0x40, 0x11, 0x31, 0x71])
            lines.append("P %d" % en)
        if r.random() < 0.6:
            mx = r.choice([1, 1, 2, 3, 4, 4, 8])
            lines.append("T %d" % mx)
        if r.random() < 0.1:
            lines.append("X")
            age += 1
        if r.random() < 0.1:
            lines += ["N", "P %d" % en, "T %d" % mx]
            age, ctx = age + 1, ctx + 1
        n = big if r.random() < 0.5 else 40
        rows, cols, depth = r.randint(1, n), r.randint(1, n), r.randint(1, n)
        if r.random() < 0.15:
            cols = 1
        ty = r.choice([0, 0, 1, 1, 2, 2, 3, 4])
        if calls and r.random() < 0.3:
            ty, rows, depth = views[-1]
        if rows == cols:
            cols = rows % n + 1
            if rows == cols:
                continue
        views.append((ty, rows, depth))
        vs = []
        for k, (a, b) in enumerate([(rows, depth), (depth, cols)]):
            o = r.randint(0, 1)
            st = (b if o else a) + r.choice([0, 0, 1, 16])
            zp = r.choice([0, 3, 128]) if ty == 2 else 0
            vs.append({"b": r.randint(0, 2) + 10 * k, "rows": a, "cols": b, "ord": o, "st": st, "zp": zp,
                       "cp": r.choice([0, 0, 0, 3, 3, 1, 2])})
        o = r.randint(0, 1)
        d = {"rows": rows, "cols": cols, "ord": o, "st": (cols if o else rows) + r.choice([0, 0, 2]), "zp": 0, "cp": 0, "b": ""}
        lines.append("M %d %s %d %d %d" % (ty, " ".join("%d %d %d %d %d %d %d" % (
            v["b"], v["rows"], v["cols"], v["ord"], v["st"], v["zp"], v["cp"]) for v in vs), d["ord"], d["st"], d["zp"]))
        c = {"en": en | 1, "max": mx, "age": age, "ctx": ctx}
        for k, v in zip("lrd", vs + [d]):
            v["ty"] = TYPES[ty]["lrd".index(k)]
            if k != "d":
                v["b"] = "%s-%d-%d" % (v["ty"], v["b"], v["st"] * (v["rows"] if v["ord"] else v["cols"]))
            v["ord"] = ORD[v["ord"]]
            c[k] = v
        calls.append(c)
    return lines, calls


def execute(ctx, binary, lines, calls, how, name):
    """Runs one program; returns the events."""
    p = os.path.join(ctx.dir, name)
    with open(p + ".in", "w") as f:
        f.write("\n".join(lines) + "\n")
    env = dict(os.environ)
    for v in ("RUY_TRACE_FILE", "RUY_TRACE_HTML", "RUY_PATHS"):
        env.pop(v, None)
    if how & 1:
        env["RUY_TRACE_FILE"] = p + ".trace"
    if how & 6:
        env["RUY_TRACE_HTML"] = "1" if how & 2 else "0"
    rc = 0
    try:
        r = subprocess.run([binary, p + ".in", p + ".calls"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=60, text=True, errors="replace")
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 124, ""
    if rc == 3:
        raise vf.CheckError("tracing harness failed")
    if how & 1:
        out = open(p + ".trace", errors="replace").read() if os.path.exists(p + ".trace") else ""
    done = [json.loads(x) for x in open(p + ".calls")] if os.path.exists(p + ".calls") and rc == 0 else []
    evs = [{"k": "S"}]
    if len(done) == len(calls):
        for c, x in zip(calls, done):
            evs.append(dict(c, **x))
    else:
        evs.append({"k": "crash", "rc": rc})
    evs += parse(out, bool(how & 2)) + [{"k": "end", "rc": rc}]
    for q in (".in", ".calls", ".trace"):
        if os.path.exists(p + q):
            os.remove(p + q)
    return evs


def validate(ctx, hs, path):
    bad, todo, results = [], list(range(len(hs))), []
    for _ in range(4):
        if not todo:
            break
        where = []
        with open(path, "w") as f:
            for h in todo:
                for k, ev in enumerate(hs[h]):
                    f.write(json.dumps(ev) + "\n")
                    where.append((h, k))
        r = vf.validate_trace("Tracing", path)
        results.append(r)
        if r.ok:
            return results, bad, []
        if r.rejected is None:
            raise vf.CheckError("TLC failed on %s:\n%s" % (path, r.out[-3000:]))
        h, k = where[r.rejected - 1]
        why = re.findall(r'<<"WHY", "(\w+)", %d>>' % r.rejected, r.out)
        bad.append((h, k, why[-1] if why else hs[h][k]["k"]))
        todo = todo[todo.index(h) + 1:]
    return results, bad, todo


@check("R03")
def r03(ctx):
    ctx.assumptions = ["Programs run on real threads: which thread does what varies from run to run. A rejected trace is "
                       "reported as recorded.",
                       "Programs have one context at a time and call from one thread."]
    r = random.Random(ctx.seed * 131 + 3)
    progs = []
    for i in range(ctx.pick(160, 2400)):
        lines, calls = program(r, ctx.pick(120, 200) if i % 4 else 260)
        if calls:
            progs.append((lines, calls, r.choice([1, 1, 1, 0, 3, 3, 2, 5])))
    binary = exe()
    n = vf.JOBS
    shards = [progs[i::n] for i in range(n)]

    def one(i):
        hs = [execute(ctx, binary, l, c, h, "t%d-%d" % (i, k)) for k, (l, c, h) in enumerate(shards[i])]
        return hs, validate(ctx, hs, os.path.join(ctx.dir, "tracing-%d.ndjson" % i))

    workers = 0
    for i, x in enumerate(vf.run_parallel([lambda i=i: one(i) for i in range(n)], ctx)):
        if x is None:
            continue
        hs, (results, bad, left) = x
        for t in results:
            ctx.states += t.distinct
            ctx.transitions += t.generated
        if left:
            ctx.incomplete = True
        ctx.traces += len(hs) - len(left)
        ctx.trace_events += sum(len(h) for k, h in enumerate(hs) if k not in left)
        workers += sum(1 for h in hs for e in h if e["k"] == "thr" and e["id"] > 0)
        if len(ctx.samples) < 3 and hs:
            ctx.samples.append({"script": shards[i][0][0], "events": hs[0][:6]})
        for h, k, why in bad[:2]:
            if len(ctx.violations) < 3:
                ctx.violation("program %d.%d: %s at %s" % (i, h, why, json.dumps(hs[h][k])[:300]),
                              {"why": why, "event": hs[h][k], "script": shards[i][h][0], "format": shards[i][h][2],
                               "trace": hs[h][max(0, k - 60):k + 1]})
    ctx.extra["sections_of_worker_threads"] = workers
