"""T06, M03: whole multiplications under the controlled scheduler."""
import random
import script, vf
from . import check, PREBUILD
from .pool import Jobs, ASSUME


def exe(variant):
    return vf.build(variant, "mulsched", ["mulsched.cc"], None, rt=True)


def same_exe(variant):
    return vf.build(variant, "same", ["same.cc"], None, libs=["-lcpuinfo"])


PREBUILD += [lambda: exe("schedn"), lambda: exe("sched"), lambda: same_exe("plain"), lambda: same_exe("blind")]

PATHS = [0x1, 0x10, 0x20, 0x40]


# type,threads,strategy,rows,cols,depth,path,order,cache,spin,clear
def mul(ty, t, rows, cols, depth, path=1, order=2, cache=0, strategy=1, clear=0, spin=0):
    return "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d" % (ty, t, strategy, rows, cols, depth, path, order, cache, spin, clear)


def random_mul(rnd, big):
    return mul(rnd.randint(0, 3), rnd.randint(1, 4), rnd.choice([1, 5, 16, 20, 33]), rnd.choice([1, 8, 17, 24]),
               rnd.choice([1, 4, 9, 16]) * big, rnd.choice(PATHS + [2, 4, 8]), rnd.randint(0, 7), rnd.randint(0, 3),
               rnd.choice([1, 1, 0]), rnd.choice([0, 0, 1]), rnd.choice([0, 0, 1, 2, 4, 9]))


def scenarios(ctx, n):
    rnd = random.Random(ctx.seed * 17 + 3)
    out = [mul(0, 2, 16, 16, 8), mul(1, 3, 20, 17, 9, 0x40), mul(2, 4, 33, 24, 5, 0x20), mul(3, 2, 24, 16, 8, 0x10),
           mul(0, 2, 16, 16, 8, cache=3) + "/" + mul(0, 2, 16, 16, 8, cache=3),
           mul(2, 2, 16, 16, 4, 0x40) + "|" + mul(2, 2, 16, 16, 4, 0x40),
           mul(1, 1, 9, 8, 4, 0x20) + "|" + mul(1, 1, 9, 8, 4, 0x20) + "|" + mul(0, 1, 8, 8, 4, 0x20),
           mul(1, 2, 16, 17, 4, 0x40, cache=1) + "/" + mul(1, 1, 16, 17, 4, 0x40, cache=1) + "|" +
           mul(1, 2, 16, 17, 4, 0x10, cache=1),
           mul(2, 0, 40, 40, 40, 0x40, strategy=0), mul(2, 4, 48, 48, 33, 0x40, strategy=0)]
    for i in range(n):
        k = rnd.choice([1, 1, 2])
        out.append("|".join("/".join(random_mul(rnd, 1) for _ in range(rnd.choice([1, 2]))) for _ in range(k)))
    return out


def everywhere(ctx):
    """Every path, type and pair of storage orders: two contexts at once, one of
    them with two threads."""
    rnd = random.Random(ctx.seed * 23 + 5)
    out = []
    for path in PATHS + ([2, 4, 8] if not ctx.quick else []):
        for ty in range(4):
            for order in (1, 2) if ctx.quick else range(8):
                m = mul(ty, 2, rnd.choice([17, 20, 33]), rnd.choice([9, 17, 21]), rnd.choice([3, 9, 14]), path, order)
                out.append(m + "|" + mul(ty, 1, 9, 11, 5, path, order))
    return out


def jobs(ctx, n, count, more=()):
    j = Jobs()
    s0 = ctx.seed * 1000003
    for i, sp in enumerate(more):
        j.add(kind="mul", spec=sp, mode=["random", "pct"][i % 2], seed=s0 + 77 + i * 1000, count=ctx.pick(3, 4),
              switch=[150, 400, 700][i % 3], depth=2 + i % 4, len=[200, 500, 1000][i % 3], spurious=0, timeout=60,
              tick=[500000, 3000000][i % 2])
    for i, sp in enumerate(scenarios(ctx, n)):
        for mode in ("random", "pct"):
            j.add(kind="mul", spec=sp, mode=mode, seed=s0 + i * 1000, count=count, switch=[150, 400, 700][i % 3],
                  depth=2 + i % 4, len=[200, 500, 1000][i % 3], spurious=[0, 15][i % 2], timeout=60,
                  tick=[500000, 3000000][i % 2])
    return j.lines


@check("T06")
def t06(ctx):
    ctx.assumptions = ASSUME + ["Accesses made by masked vector loads/stores are not instrumented by the compiler; "
                                "all other accesses are."]
    js = jobs(ctx, ctx.pick(20, 70), ctx.pick(10, 40), everywhere(ctx))
    for v in ("schedn",) if ctx.quick else ("schedn", "sched"):
        vf.sched_check(ctx, exe(v), "MulTrace", js, tag=v)


def same_scenarios(ctx, n, salt):
    """Arbitrary data, where every change of the order of summation shows, and
    real threads; each problem under many settings."""
    rnd = random.Random(ctx.seed * 19 + salt)
    out = []
    for i in range(n):
        ls = ["S"]
        for p in range(2):
            shape = rnd.randrange(5)
            a, b = rnd.choice([40, 64, 100, 256, 333, 512]), rnd.choice([17, 64, 100, 200, 512])
            dims = {0: (a, b, rnd.choice([64, 300])), 1: (a, 1, 700), 2: (1, b, 900), 3: (b, a, rnd.choice([9, 128])),
                    4: (rnd.randint(1, 40), rnd.randint(1, 40), rnd.choice([1000, 3000]))}[shape]
            ls.append("D %d %d %d %d %d %d %d %d %d" % ((p, rnd.choice([0, 0, 0, 1, 2, 3, 4]), rnd.randrange(1 << 30)) + dims +
                                                       (rnd.randrange(8), rnd.randint(0, 1), rnd.choice([0, 1, 8]))))
        paths = rnd.sample(PATHS + [2, 4, 8], 2)
        ls.append("C")
        # the portable path is slow: less of it
        for k in range(40):
            x = rnd.random()
            if x < 0.12:
                ls.append("C")
            if x < 0.35 or ls[-1] == "C":
                ls.append("P %d" % rnd.choice(paths))
            if rnd.random() < 0.6:
                ls.append("T %d %d" % (rnd.choice([1, 2, 2, 3, 4, 5, 7, 8, 13]), rnd.choice([0, 1, 1])))
            if rnd.random() < 0.15:
                ls.append("U %d" % rnd.choice([0, 1, 2]))
            if rnd.random() < 0.15:
                ls.append("N %d" % rnd.choice([0, 0, 1, 20]))
            if rnd.random() < 0.1:
                ls.append("X")
            ls.append("R %d %d %d" % (rnd.randrange(2), rnd.choice([0, 0, 0, 1, 2, 3]), rnd.choice([0, 0, 0, 1, 2, 3])))
        out.append(("same %d" % i, ls))
    return out


@check("M03")
def m03(ctx):
    ctx.assumptions = ASSUME
    js = jobs(ctx, ctx.pick(24, 100), ctx.pick(10, 40))
    for v in ("sched",) if ctx.quick else ("sched", "schedn"):
        vf.sched_check(ctx, exe(v), "MulTrace", js, tag=v)
    for k, v in enumerate(("plain", "blind")):
        script.check(ctx, same_exe(v), "Same", same_scenarios(ctx, ctx.pick(32, 300), k))
