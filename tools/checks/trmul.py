"""T04, T05, T07: the multi-threaded middle-end."""
import random, re
import vf
from . import check, PREBUILD
from .pool import Jobs, ASSUME


def not_backend(f):
    return not (f.startswith("kernel_") or f.startswith("pack_"))


def exe(variant):
    return vf.build(variant, "trmul", ["trmul.cc"], not_backend, rt=True)


PREBUILD += [lambda: exe("sched"), lambda: exe("schedn"), lambda: exe("nopackahead")]


# T,strategy,rows,cols,depth,kr,kc,es,pre1,pre2
def scenarios(ctx, n_random):
    rnd = random.Random(ctx.seed * 131 + 5)
    out = ["2,1,16,16,8,8,8,1,0,0", "2,1,32,32,8,8,8,1,0,0", "3,1,32,32,8,8,8,1,0,0", "4,1,32,32,64,8,8,4,0,0",
           "2,1,64,64,8,8,8,1,0,0", "2,1,64,16,8,8,8,1,0,0", "3,1,16,128,8,4,8,1,0,0", "2,1,32,32,8,8,8,1,1,0",
           "2,1,32,32,8,8,8,1,0,1", "3,1,64,64,8,8,8,1,1,1", "4,1,100,77,30,4,16,1,0,0", "8,1,24,24,8,8,8,1,0,0",
           "1,1,64,64,64,8,8,4,0,0", "1,0,64,64,64,8,8,4,0,0", "4,0,16,16,127,8,8,1,0,0", "4,0,64,64,64,8,8,1,0,0",
           "4,0,31,31,34,8,8,1,0,0", "4,0,128,128,8,8,8,1,0,0", "2,1,32,32,8,8,8,1,0,0/2,1,32,32,8,8,8,1,0,0",
           "2,1,16,16,8,8,8,1,0,0/4,1,64,64,8,8,8,1,0,0/3,0,64,64,64,8,8,1,0,0", "3,1,8,8,4,8,8,1,0,0",
           "3,1,1,200,4,8,8,1,0,0", "2,1,300,1,4,8,8,1,0,0", "5,1,64,64,512,8,8,4,0,0"]
    for _ in range(n_random):
        muls = []
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            kr, kc = rnd.choice([(8, 8), (4, 8), (1, 1), (16, 16), (4, 4)])
            muls.append("%d,%d,%d,%d,%d,%d,%d,%d,%d,%d" % (
                rnd.randint(1, 5), rnd.choice([1, 1, 0]), rnd.choice([1, 7, 16, 33, 48, 64, 100, 130]),
                rnd.choice([1, 9, 16, 32, 50, 64, 96]), rnd.choice([1, 8, 40, 300]), kr, kc, rnd.choice([1, 2, 4]),
                rnd.choice([0, 0, 0, 1]), rnd.choice([0, 0, 0, 1])))
        out.append("/".join(muls))
    return out


# 2^31 and 2^32 scalar products and around; sizes next to multiples of 32768
SIZES = ["4,0,256,256,65536,8,8,1,0,0", "3,0,512,256,32768,8,8,1,0,0", "4,0,256,256,32768,8,8,1,0,0", "2,0,256,264,32768,8,8,4,0,0",
         "4,0,128,256,262144,8,8,1,0,0", "3,0,64,64,2097152,8,8,1,0,0", "4,0,32,32,63,8,8,1,0,0", "4,0,32,32,64,8,8,1,0,0",
         "4,0,32,32,95,8,8,1,0,0", "4,0,32,32,96,8,8,1,0,0", "5,0,64,64,8,8,8,1,0,0", "4,0,1,65536,1,8,8,1,0,0",
         "1,0,256,256,65536,8,8,1,0,0", "4,0,64,64,64,8,8,1,0,0/2,0,64,64,64,8,8,1,0,0/8,0,256,256,65536,8,8,1,0,0"]
# grids of many blocks (up to 1024 at this depth, with the cache sizes assumed without detection)
GRIDS = ["3,1,256,256,4096,8,8,4,0,0", "2,1,192,512,4096,8,8,4,0,0", "4,1,512,64,4096,4,8,4,1,0", "3,1,136,200,4096,8,8,4,0,1"]
# many threads
WIDE = ["12,1,128,128,8,8,8,1,0,0", "40,1,96,256,64,8,8,4,0,0", "17,0,256,256,64,8,8,1,0,0", "70,1,128,256,4096,8,8,4,0,0",
        "6,1,64,64,8,8,8,1,0,0/24,1,128,128,64,8,8,4,0,0/3,1,64,64,8,8,8,1,0,0"]


def hints(ctx, num):
    out = []
    for cfg, spec in (("TrMulHints2", "2,1,16,16,8,8,8,1,0,0"), ("TrMulHints3", "3,1,32,32,8,8,8,1,0,0")):
        r = vf.tlc("TrMulHints", cfg, args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(ctx.seed)])
        found = re.findall(r'"HINT <<([^>]*)>>"', r.out)
        if not found:
            raise vf.CheckError("no behaviours generated from TrMul.tla:\n" + r.out[-2000:])
        for f in found:
            out.append((spec, f.replace(" ", "")))
    ctx.extra["model_behaviours_replayed"] = len(out)
    return out


def jobs(ctx):
    q = ctx.quick
    j = Jobs()
    s0 = ctx.seed * 1000003
    for i, sp in enumerate(scenarios(ctx, 6 if q else 60)):
        for mode in ("random", "pct"):
            j.add(kind="trmul", spec=sp, yields=i % 3, mode=mode, seed=s0 + i * 1000, count=12 if q else 36,
                  switch=[150, 400, 700][i % 3], depth=2 + i % 4, len=[100, 250, 600][i % 3],
                  spurious=[0, 20][i % 2], tick=[500000, 3000000][i % 2])
    for sp in ("2,1,16,16,8,8,8,1,0,0", "2,1,32,16,8,8,8,1,0,0"):
        j.add(kind="trmul", spec=sp, yields=0, mode="dfs", seed=1, count=250 if q else 2500, bound=1 if q else 2)
    for i, sp in enumerate(SIZES + GRIDS + WIDE):
        for mode in ("random", "pct"):
            j.add(kind="trmul", spec=sp, yields=i % 2, mode=mode, seed=s0 + i * 1000 + 77, count=2 if q else 3,
                  switch=[150, 400, 700][i % 3], depth=3 + i % 4, len=3000, spurious=0, tick=500000)
    for sp, h in hints(ctx, 40 if q else 400):
        j.add(kind="trmul", spec=sp, yields=0, mode="hint", seed=1, count=1, prefix=h)
    return j.lines


def run(ctx, variants, models, faulty):
    ctx.assumptions = ASSUME + ["Packing and kernel functions are recording stand-ins; the real ones are checked "
                                "by M01, M02, M04, M07 and T06."]
    for m in models:
        vf.model_check(ctx, "TrMul", m)
    vf.model_mutants(ctx, "TrMul", ["TrMul_" + x for x in faulty])
    js = jobs(ctx)
    for v in variants:
        vf.sched_check(ctx, exe(v), "TrMulTrace", js, tag=v)


@check("T04")
def t04(ctx):
    run(ctx, ("sched", "schedn") if ctx.quick else ("sched", "schedn", "nopackahead"),
        ctx.pick(["TrMul2", "TrMulWide"], ["TrMul2", "TrMulPre", "TrMulNoAhead", "TrMulWide", "TrMul3"]),
        ["claim", "start", "skip"])


@check("T05")
def t05(ctx):
    run(ctx, ("schedn", "nopackahead") if ctx.quick else ("schedn", "sched", "nopackahead"),
        ctx.pick(["TrMul2", "TrMulPre", "TrMulNoAhead"], ["TrMul2", "TrMulPre", "TrMulNoAhead", "TrMulWide", "TrMul3"]),
        ["finishrelaxed", "checkrelaxed", "early", "aheadmarks"])


@check("T07")
def t07(ctx):
    run(ctx, ("schedn",), ["TrMul2"], [])
