"""T01, T02, T03: thread pool, countdown and condition waits."""
import random, re
import vf
from . import check, PREBUILD

FILES = ("thread_pool.cc", "blocking_counter.cc", "wait.cc", "denormal.cc")


def exe(variant):
    return vf.build(variant, "pool", ["pool.cc", "counter.cc"], lambda f: f in FILES, rt=True)


def hints(ctx, num, depth=700):
    """Behaviours of ThreadPool.tla as (calls, thread sequence)."""
    r = vf.tlc("ThreadPoolHints", args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                                        str(ctx.seed)], workers=1)
    out = []
    for m in re.finditer(r'"HINT <<([^>]*)>> <<([^>]*)>>"', r.out):
        calls = [int(x) for x in m.group(1).replace(" ", "").split(",") if x]
        who = [int(x) for x in m.group(2).replace(" ", "").split(",") if x]
        if len(calls) >= 1 and max(calls) > 1:
            out.append((calls, who))
    if not out:
        raise vf.CheckError("no behaviours generated from ThreadPool.tla:\n" + r.out[-2000:])
    ctx.extra["model_behaviours_replayed"] = ctx.extra.get("model_behaviours_replayed", 0) + len(out)
    return out


PREBUILD += [lambda: exe("sched"), lambda: exe("schedn")]


class Jobs:
    def __init__(self, start=1):
        self.lines = []
        self.id = start

    def add(self, **kw):
        self.lines.append(" ".join("%s=%s" % kv for kv in kw.items()) + " id=%d" % self.id)
        self.id += 1


def pool_jobs(ctx, focus):
    rnd = random.Random(ctx.seed * 7919 + 11)
    q = ctx.quick
    j = Jobs()
    s0 = ctx.seed * 1000003
    # fixed shapes, two spin regimes, with and without spurious wake-ups
    specs = ["0:2", "0:3,2", "0:2,3,1,4", "0:4,4,4", "0:2,2,2,2,2,2", "5:3,3", "2:2,4", "0:1,5", "0:3/0:2,2",
             "0:5,2,5", "0.5:2,2,2/3:3", "0:2/0:2/0:2"]
    for k in range(3 if q else 12):
        specs.append("%s:%s" % (rnd.choice(["0", "0", "1", "4"]),
                                ",".join(str(rnd.randint(1, 5)) for _ in range(rnd.randint(2, 6)))))
    per = 24 if q else 160
    for i, sp in enumerate(specs):
        for mode in ("random", "pct"):
            j.add(kind="pool", spec=sp, yields=i % 3, mode=mode, seed=s0 + i * 1000, count=per,
                  switch=[120, 300, 600][i % 3], depth=2 + i % 3, len=[60, 150, 400][i % 3],
                  spurious=[0, 30][(i + (mode == "pct")) % 2], tick=[500000, 200000][i % 2])
    # many threads, and long lives
    for i, sp in enumerate(["0:9,17,3", "0:34", "0:3,66,2", "0:130", "0:17,17,17,17", "1:40,8,40"]
                           + ["0:" + ",".join(["2"] * 300), "0:" + ",".join(["3", "1", "4"] * 30)]):
        if q and i in (3, 5):
            continue
        j.add(kind="pool", spec=sp, yields=i % 2, mode=["random", "pct"][i % 2], seed=s0 + 500 + i, count=2 if q else 6,
              switch=[120, 400][i % 2], depth=3, len=2000, spurious=0, tick=500000, timeout=60)
    # exhaustive up to a preemption bound
    j.add(kind="pool", spec="0:2", yields=0, mode="dfs", seed=1, count=400 if q else 6000, bound=1 if q else 2)
    j.add(kind="pool", spec="0:2,2", yields=0, mode="dfs", seed=1, count=300 if q else 6000, bound=1)
    j.add(kind="pool", spec="0:3", yields=0, mode="dfs", seed=1, count=300 if q else 6000, bound=1)
    # behaviours of the design model
    for calls, who in hints(ctx, 80 if q else 600):
        j.add(kind="pool", spec="0:" + ",".join(map(str, calls)), yields=0, mode="hint", seed=1, count=1,
              prefix=",".join(map(str, who)))
    return j.lines


def counter_jobs(ctx):
    q = ctx.quick
    j = Jobs()
    s0 = ctx.seed * 1000003
    specs = ["0:1", "0:2", "0:3", "0:2,2", "0:3,1,2", "5:2", "5:4,2", "0:4,4", "0:1,1,1,1", "1:3,3",
             "w0:1", "w0:3", "w5:2", "w0:6", "w1:4"]
    per = 24 if q else 200
    for i, sp in enumerate(specs):
        for mode in ("random", "pct"):
            j.add(kind="counter", spec=sp, yields=i % 3, mode=mode, seed=s0 + i * 1000, count=per,
                  switch=[120, 300, 600][i % 3], depth=2 + i % 3, len=[40, 80, 150][i % 3],
                  spurious=[0, 40][(i + (mode == "pct")) % 2], tick=[500000, 200000][i % 2])
    for i, sp in enumerate(["0:17,2", "0:33", "0:60,9", "0:130", "0:300,2", "5:70", "0:" + ",".join(["1", "2"] * 20)]):
        j.add(kind="counter", spec=sp, yields=i % 2, mode=["random", "pct"][i % 2], seed=s0 + 700 + i, count=3 if q else 12,
              switch=[120, 400][i % 2], depth=3, len=1000, spurious=0, tick=500000, timeout=60)
    for sp, b in (("0:1", 3), ("0:2", 2), ("0:1,1", 2), ("w0:1", 3), ("w0:2", 2), ("5:1", 2), ("w5:1", 2)):
        j.add(kind="counter", spec=sp, yields=0, mode="dfs", seed=1, count=300 if q else 8000, bound=b)
    return j.lines


ASSUME = ["The scheduler explores sequentially consistent interleavings of synchronisation operations; weaker "
          "hardware orders are covered through the happens-before analysis of the recorded memory orders.",
          "Threads, mutexes, condition variables, clocks and memory are the runtime's models of the POSIX ones."]


@check("T01")
def t01(ctx):
    ctx.assumptions = ASSUME
    vf.model_check(ctx, "ThreadPool", "ThreadPoolSafe")
    if not ctx.quick:
        vf.model_check(ctx, "ThreadPool", "ThreadPoolWide", timeout=600)
        vf.model_check(ctx, "ThreadPool", "ThreadPoolLong", timeout=600)
    vf.model_mutants(ctx, "ThreadPool", ["ThreadPool_countrelaxed", "ThreadPool_staterelaxed", "ThreadPool_short",
                                         "ThreadPool_noreset"])
    jobs = pool_jobs(ctx, "T01")
    for v in ("sched", "schedn"):
        vf.sched_check(ctx, exe(v), "PoolTrace", jobs, tag=v)


@check("T02")
def t02(ctx):
    ctx.assumptions = ASSUME
    vf.model_check(ctx, "ThreadPool", "ThreadPoolLive")
    if not ctx.quick:
        vf.model_check(ctx, "ThreadPool", "ThreadPoolLiveSpurious", timeout=600)
    vf.model_mutants(ctx, "ThreadPool", ["ThreadPool_nolock", "ThreadPool_norecheck", "ThreadPool_decfirst",
                                         "ThreadPool_eager"])
    jobs = pool_jobs(ctx, "T02")
    for v in ("schedn", "sched"):
        vf.sched_check(ctx, exe(v), "PoolTrace", jobs, tag=v)


@check("T03")
def t03(ctx):
    ctx.assumptions = ASSUME
    vf.model_check(ctx, "Countdown")
    for m in ctx.pick(["CountdownDesign", "CountdownDesignSpurious"],
                      ["CountdownDesign", "CountdownDesignSpurious", "CountdownDesignWide"]):
        vf.model_check(ctx, "CountdownDesign", m)
    vf.model_mutants(ctx, "CountdownDesign", ["CountdownDesign_" + x for x in (
        "split", "nolock", "nocheck", "nonotify", "first", "one", "once")])
    jobs = counter_jobs(ctx)
    for v in ("sched", "schedn"):
        vf.sched_check(ctx, exe(v), "CounterTrace", jobs, tag=v)
