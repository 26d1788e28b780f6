"""Scripted scenarios of a single component: executed by a harness built on
harness/script.h, whose events are validated against a trace specification."""
import json, os, re
import vf

LEDGER_WRAP = ["-Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=memalign,--wrap=malloc,--wrap=calloc,--wrap=free,"
               "--wrap=_ZnwmSt11align_val_t,--wrap=_ZdlPvSt11align_val_t"]


def run(exe, scenarios, path, timeout=600):
    with open(path + ".in", "w") as f:
        for lines in scenarios:
            f.write("\n".join(lines) + "\n")
    if os.path.exists(path):
        os.remove(path)
    r = vf.run_harness(exe, [path + ".in", path], timeout=timeout)
    # events of each scenario
    out = []
    with open(path) as f:
        for line in f:
            if not line.strip():
                continue
            if line.startswith('{"k":"S"'):
                out.append([])
            elif not line.rstrip().endswith("}"):
                continue  # cut short by a crash
            out[-1].append(line)
    if len(out) != len(scenarios) and "stopped" not in r.stdout:
        raise vf.CheckError("%d scenarios gave %d histories" % (len(scenarios), len(out)))
    return out


def validate(histories, path, module, cfg, env):
    """Returns TLC results and [(history index, event, clause)]."""
    bad, results = [], []
    todo = list(range(len(histories)))
    for _ in range(4):
        if not todo:
            break
        where = []
        with open(path, "w") as f:
            for h in todo:
                for k, line in enumerate(histories[h]):
                    f.write(line)
                    where.append((h, k))
        r = vf.validate_trace(module, path, cfg, env)
        results.append(r)
        if r.ok:
            break
        if r.rejected is None:
            raise vf.CheckError("TLC failed on %s:\n%s" % (path, r.out[-3000:]))
        h, k = where[r.rejected - 1]
        why = re.findall(r'<<"WHY", "(\w+)", %d>>' % r.rejected, r.out)
        ev = histories[h][k].strip()
        bad.append((h, ev, why[0] if why else ("crash" if '"crash"' in ev else "event")))
        todo = todo[todo.index(h) + 1:]
    else:
        return results, bad, todo
    return results, bad, []


def check(ctx, exe, module, scenarios, cfg=None, off=(), known=None, env=None):
    """scenarios: list of (tag, lines). off: clauses of the specification that
    belong to other properties."""
    if ctx.violations:
        return
    env = dict(env or {}, **{"NO_" + c: "1" for c in off})
    n = min(vf.JOBS, max(1, len(scenarios)))
    shards = [scenarios[i::n] for i in range(n)]
    uid = os.urandom(3).hex()

    def one(i):
        p = os.path.join(ctx.dir, "%s-%s-%d" % (module, uid, i))
        hs = run(exe, [s[1] for s in shards[i]], p)
        return hs, validate(hs, p + ".ndjson", module, cfg, env)

    for i, r in enumerate(vf.run_parallel([lambda i=i: one(i) for i in range(n)], ctx)):
        if r is None:
            continue
        hs, (results, bad, left) = r
        for t in results:
            ctx.states += t.distinct
            ctx.transitions += t.generated
        if left or len(hs) < len(shards[i]):
            ctx.incomplete = True
        ctx.trace_events += sum(len(h) for k, h in enumerate(hs) if k not in left)
        ctx.traces += len(hs) - len(left)
        if len(ctx.samples) < 4 and hs:
            ctx.samples.append({"scenario": shards[i][0][0], "events": [x.strip()[:400] for x in hs[0][:8]]})
        for h, ev, why in bad:
            tag, lines = shards[i][h]
            text = known(tag, lines, why, ev) if known else None
            if text:
                if text not in ctx.known:
                    ctx.known.append(text)
                continue
            if len(ctx.violations) >= (1 if '"crash","sig":14' in ev else 3):
                continue
            p = os.path.join(ctx.dir, "confirm-" + os.urandom(3).hex())
            hs2 = run(exe, [lines], p)
            _, bad2, _ = validate(hs2, p + ".ndjson", module, cfg, env)
            if not bad2:
                # it may depend on what ran before it in the same process
                hs2 = run(exe, [x[1] for x in shards[i][:h + 1]], p)[h:]
                _, bad2, _ = validate(hs2, p + ".ndjson", module, cfg, env)
            if not bad2:
                ctx.unconfirmed({"scenario": tag, "why": why})
                continue
            ctx.violation("scenario '%s': %s at %s" % (tag, why, ev[:300]),
                          {"why": why, "event": ev[:4000], "harness": os.path.basename(exe), "script": lines,
                           "history": [x.strip()[:2000] for x in hs2[0][:400]]})
