"""Scripted sessions: generation, execution by harness/sess.cc, validation
against Session.tla."""
import json, os, re
import vf

I8, U8, I16, I32, F32, F64 = range(6)
LO = {I8: -128, U8: 0, I16: -32768, I32: -(1 << 31)}
HI = {I8: 127, U8: 255, I16: 32767, I32: (1 << 31) - 1}
# (lhs, rhs) pairs of integer types the harness instantiates
INT_PAIRS = [(I8, I8), (U8, U8), (I8, U8), (U8, I8), (I8, I16), (I16, I8), (I16, I16)]
FLOATS = [(F32, F32, F32), (F64, F64, F64), (F64, F32, F32), (F32, F64, F64)]
PATHS = [0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40]
INF = 1 << 30  # stands for an infinite clamp bound

HARNESS = ["sess.cc"] + ["sess_t%d.cc" % i for i in range(9)]


def exe(variant="plain"):
    return vf.build(variant, "sess", HARNESS, None, libs=["-lcpuinfo"], profiler="-DRUY_PROFILER" in vf.VARIANTS[variant][1])


class Session:
    """Collects harness lines and the events they correspond to."""

    def __init__(self, tag=""):
        self.lines = ["S"]
        self.events = [{"k": "S", "tag": tag}]
        self.nbuf = 0
        self.types = {}
        self.tag = tag

    def _add(self, line, ev):
        self.lines.append(line)
        self.events.append(ev)

    def buf(self, ty, vals, ro=True, place=0, side=3, bid=None):
        """side: which operand's scaling applies to float contents."""
        if bid is None:
            bid = self.nbuf
            self.nbuf += 1
        self.types[bid] = (ty, place, side)
        self._add("B %d %d %d %d %d %d %s" % (bid, place, ro, ty, len(vals), side, " ".join(map(str, vals))),
                  {"k": "buf", "b": bid, "v": list(vals)})
        return bid

    def wide(self, ty, vals, inner, stride, ro=True, side=3):
        """Runs of `inner` values, `stride` apart."""
        bid = self.nbuf
        self.nbuf += 1
        self._add("W %d %d %d %d %d %d %d %s" % (bid, ro, ty, len(vals), side, inner, stride, " ".join(map(str, vals))),
                  {"k": "buf", "b": bid, "v": list(vals)})
        return bid

    def sums(self, ty, v, a, b, place=0, side=3):
        """The matrix viewed through v has entries a[i] + b[j]."""
        bid = self.nbuf
        self.nbuf += 1
        self._add("L %d %d %d %d %d %d %d %d %d %s" % (bid, ty, v["rows"], v["cols"], v["ord"], v["st"], v["off"], place, side,
                                                       " ".join(map(str, list(a) + list(b)))),
                  {"k": "sum", "b": bid, "a": list(a), "c": list(b)})
        return bid

    def filled(self, ty, n, x, place=0):
        """A destination of n entries x."""
        bid = self.nbuf
        self.nbuf += 1
        self._add("F %d %d %d %d %d" % (bid, place, ty, n, x), {"k": "fill", "b": bid, "n": n, "x": x})
        return bid

    def poke(self, bid, vals, ro=True):
        ty, place, side = self.types[bid]
        self.buf(ty, vals, ro, place, side, bid)

    def scale(self, a, b):
        self.lines.append("Z %d %d" % (a, b))
        self.events.append(None)

    def ctx(self, c):
        self._add("C %d" % c, {"k": "ctx", "c": c})

    def delete(self, c):
        self._add("D %d" % c, {"k": "del", "c": c})

    def threads(self, c, n, force):
        self._add("T %d %d %d" % (c, n, force), {"k": "thr", "c": c, "n": n})

    def paths(self, c, p):
        self._add("P %d %d" % (c, p), {"k": "path", "c": c, "p": p})

    def clear(self, c):
        self._add("X %d" % c, {"k": "clr", "c": c})

    def env(self, p):
        self._add("E %s" % ("%x" % p if p else "-"), {"k": "env", "p": p})

    def use(self, c=-1, same=0):
        """same: nothing but repetition of earlier work since the last use."""
        self._add("Q %d" % c, {"k": "use", "c": c, "same": same})

    def big(self, bid, n, v, tail=0, w=0):
        self.lines.append("H %d %d %d %d %d" % (bid, n, v, tail, w))
        self.events.append(None)
        self.types[("big", bid)] = v, w

    def bigmul(self, c, l, r, rows, cols, depth, poll, polr, tail=0):
        """tail: number of last rows made of the tail of l; then cols is 1."""
        (v, w), (u, _) = self.types[("big", l)], self.types[("big", r)]
        self._add("G %d %d %d %d %d %d %d %d" % (c, l, r, rows, cols, depth, poll, polr),
                  {"k": "big", "c": c, "n": rows * cols, "want": depth * v * u, "tail": tail, "wtail": depth * w * u})

    def mul(self, c, types, l, r, d, bias=-1, mode=0, m=0, e=0, mb=-1, eb=-1, ch=0, rnd=1, cmin=None, cmax=None,
            mxcsr=0, cp=0):
        """l, r, d: dict(b, off, rows, cols, st, ord, zp[, pol])."""
        tl, tr, td = types
        flt = td >= 4
        lo, hi = (-INF, INF) if flt else (LO[td], HI[td])
        clamp = (1 if cmin is not None else 0) | (2 if cmax is not None else 0)
        cmin = lo if cmin is None else cmin
        cmax = hi if cmax is None else cmax
        ev = {"k": "mul", "c": c, "tl": tl, "tr": tr, "td": td, "l": l, "r": r, "d": d, "bias": bias, "mode": mode,
              "m": m, "e": e, "mb": mb, "eb": eb, "ch": ch, "rnd": rnd, "cmin": cmin, "cmax": cmax,
              "cp": cp or 0x7f}

        def mat(a, src):
            s = "%d %d %d %d %d %d %d" % (a["b"], a["off"], a["rows"], a["cols"], a.get("rst", a["st"]), a["ord"], a["zp"])
            return s + (" %d" % a["pol"] if src else "")
        line = "M %d %d %d %d %d 1 %d %d %s %s %s %d %d %d %d %d %d %d %d %d %s %s" % (
            c, tl, tr, td, d["b"], mxcsr, cp, mat(l, 1), mat(r, 1), mat(d, 0), bias, mode, m, e, mb, eb, ch, rnd, clamp,
            cmin, cmax)
        self._add(line, ev)


def run(exe_, sessions, path):
    """Runs sessions; returns for each the completed event list, and what went
    wrong if it did not run to its end."""
    with open(path + ".in", "w") as f:
        for s in sessions:
            f.write("\n".join(s.lines) + "\n")
    vf.run_harness(exe_, [path + ".in", path + ".res"])  # stops after two sessions that hang
    res = {}
    with open(path + ".res") as f:
        for line in f:
            try:
                d = json.loads(line)
            except ValueError:
                raise vf.CheckError("unreadable harness output: " + line[:300])
            res[d["i"]] = d
    out = []
    at = 0
    for s in sessions:
        evs, crash = [], None
        for k, ev in enumerate(s.events):
            r = res.get(at + k)
            if r is not None and r["k"] == "stopped":
                return out
            if r is not None and r["k"] in ("crash", "died"):
                crash = {"op": s.lines[k][:400], "result": r, "event": ev}
                break
            if ev is None:
                continue
            ev = dict(ev)
            if r is not None:
                ev.update({x: y for x, y in r.items() if x not in ("i", "k")})
            elif ev["k"] in ("mul", "use", "big"):
                raise vf.CheckError("no result for operation: " + s.lines[k][:300])
            evs.append(ev)
        out.append((evs, crash))
        at += len(s.lines)
    return out


# Clauses of Session.tla and the properties they decide.
CLAUSES = {"paths": {"X01"}, "path": {"X01", "X05"}, "intact": {"M04", "M06", "M11", "X05"}, "gaps": {"M04", "M11", "X05"}, "fpmode": {"M08", "X05"},
           "fpexcept": {"M08"}, "advisory": {"M06", "X05"}, "retained": {"K01", "K04", "X05"}, "threads": {"A03"}, "leak": {"A03"},
           "growth": {"A03"}, "maxthreads": {"X01"}}


def clause_env(prop):
    """The result clause is enforced for every property."""
    return {"NO_" + c: "1" for c, props in CLAUSES.items() if prop not in props}


def validate(paths_evs, path, module="Session", cfg=None, env=None):
    """Validates sessions' events; returns (Tlc results, [(session index, event
    index in it, reason)])."""
    bad, results = [], []
    todo = list(paths_evs)  # (index, events)
    rounds = 0
    while todo:
        where = []
        with open(path, "w") as f:
            for idx, evs in todo:
                for k, ev in enumerate(evs):
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
                    where.append((idx, k))
        r = vf.validate_trace(module, path, cfg, env)
        results.append(r)
        if r.ok:
            break
        if r.rejected is None:
            raise vf.CheckError("TLC failed on %s:\n%s" % (path, r.out[-3000:]))
        idx, k = where[r.rejected - 1]
        why = re.findall(r'<<"WHY", "(\w+)", %d>>' % r.rejected, r.out)
        bad.append((idx, k, why[0] if why else "event"))
        pos = [i for i, _ in todo].index(idx)
        todo = todo[pos + 1:]
        rounds += 1
        if rounds >= 6:
            return results, bad, [i for i, _ in todo]
    return results, bad, []


def shrink_ev(ev):
    d = dict(ev)
    for k in ("v", "out", "a", "c"):
        if isinstance(d.get(k), list) and len(d[k]) > 600:
            d[k] = d[k][:600] + ["..."]
    return d


def check(ctx, sessions, variant="plain", module="Session", known=None, exe_=None, cfg=None):
    """Runs and validates sessions in parallel shards.
    known(session, reason, event) -> text of a known finding or None."""
    if ctx.violations:
        return
    x = exe_ or exe(variant)
    shards = [sessions[i::vf.JOBS] for i in range(vf.JOBS)]
    names = []

    def one(i):
        if not shards[i]:
            return None
        p = os.path.join(ctx.dir, "sess-%s-%d-%d" % (variant, len(ctx.models), i))
        p = p + "-" + os.urandom(3).hex()
        out = run(x, shards[i], p)
        return (out,) + validate([(k, evs) for k, (evs, _) in enumerate(out)], p + ".ndjson", module, cfg, clause_env(ctx.prop))

    findings = []
    for i, r in enumerate(vf.run_parallel([lambda i=i: one(i) for i in range(vf.JOBS)], ctx)):
        if r is None:
            continue
        out, results, bad, left = r
        if left or len(out) < len(shards[i]):
            ctx.incomplete = True
        for t in results:
            ctx.states += t.distinct
            ctx.transitions += t.generated
        ctx.trace_events += sum(len(evs) for k, (evs, _) in enumerate(out) if k not in left)
        ctx.traces += len(out) - len(left)
        ctx.extra["multiplications"] = ctx.extra.get("multiplications", 0) + sum(
            1 for evs, _ in out for e in evs if e["k"] == "mul")
        for k, (evs, crash) in enumerate(out):
            if crash:
                findings.append((shards[i][k], "crash", crash, evs))
        for k, e, why in bad:
            findings.append((shards[i][k], why, out[k][0][e], out[k][0]))
        if len(ctx.samples) < 3 and out:
            evs = out[0][0]
            ctx.samples.append({"session": shards[i][0].tag, "events": [shrink_ev(e) for e in evs[:8]]})
    for s, why, ev, evs in findings:
        text = known(s, why, ev) if known else None
        if text:
            if text not in ctx.known:
                ctx.known.append(text)
            continue
        hang = why == "crash" and ev["result"].get("sig") == 14
        if len(ctx.violations) >= (1 if hang else 3):
            continue
        # confirm by running the session alone
        p = os.path.join(ctx.dir, "confirm-" + os.urandom(3).hex())
        out = run(x, [s], p)
        _, bad, _ = validate([(0, out[0][0])], p + ".ndjson", module, cfg, clause_env(ctx.prop))
        if not bad and not out[0][1]:
            # it may depend on what ran before it in the same process
            before = next(sh[:sh.index(s) + 1] for sh in shards if s in sh)
            out = run(x, before, p)[-1:]
            _, bad, _ = validate([(0, out[0][0])], p + ".ndjson", module, cfg, clause_env(ctx.prop))
        if not bad and not out[0][1]:
            ctx.unconfirmed({"session": s.tag, "why": why})
            continue
        ctx.violation("session '%s': %s" % (s.tag, why),
                      {"why": why, "event": ev if "op" in ev else shrink_ev(ev), "harness": os.path.basename(x),
                       "script": [ln[:20000] for ln in s.lines]})
