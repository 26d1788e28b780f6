"""B01, B02: cutting the destination into blocks, and visiting them."""
import random
import script, vf
from . import PREBUILD, check


def exe(variant="plain"):
    return vf.build(variant, "blockmap", ["blockmap.cc"], lambda f: f in ("block_map.cc",) or f.startswith("trace"))


PREBUILD += [exe, lambda: exe("ndebug")]
KERNEL = [1, 2, 4, 8, 16]
CACHES = [(1 << 15, 1 << 19), (1 << 18, 1 << 21), (1 << 20, 1 << 25), (1 << 12, 1 << 13), (1 << 10, 1 << 10),
          (1 << 30, (1 << 31) - 1), (48 << 10, 3 << 20)]


def line(rows, cols, depth, kr, kc, ls, rs, thr, cache, limit=1 << 30):
    return "M %d %d %d %d %d %d %d %d %d %d %d" % (rows, cols, depth, kr, kc, ls, rs, thr, cache[0], cache[1], limit)


def small(r, ks, upto):
    for kr in ks:
        for kc in ks:
            for i in range(1, upto + 1):
                for j in range(1, upto + 1):
                    yield line(i * kr, j * kc, r.choice([1, 3, 16, 64, 100, 1000, 4096, 70000]), kr, kc,
                               r.choice([1, 2, 4, 8]), r.choice([1, 2, 4, 8]), r.choice([1, 1, 2, 3, 4, 5, 8, 16, 37, 200]),
                               r.choice(CACHES))


def large(r, n, limit):
    out = []
    while len(out) < n:
        kr, kc = r.choice(KERNEL), r.choice(KERNEL)
        e = r.choice([10, 14, 20, 24, 28, 29])

        def dim(k):
            b = 1 << r.randrange(0, e)
            return max(1, min((1 << 29), r.choice([b, b - 1, b + 1, r.randrange(1, 2 * b)])) // k) * k
        rows, cols = dim(kr), dim(kc)
        if r.random() < 0.4:
            rows = kr * r.randrange(1, 5)
        elif r.random() < 0.3:
            cols = kc * r.randrange(1, 5)
        # entries of the destination; number of blocks
        if rows * cols > 1 << 33 or rows * cols // (kr * kc) >= 1 << 31:
            continue
        depth = r.choice([1, 2, 17, 256, 4096, 100000, 1 << 20, 5000000, 1 << 24, 1 << 28])
        # Operands of at most 2^40 entries.
        if (rows + cols) * depth > 1 << 40:
            continue
        out.append(line(rows, cols, depth, kr, kc, r.choice([1, 2, 4, 8]), r.choice([1, 2, 4, 8]),
                        r.choice([1, 2, 4, 7, 16, 64, 1000]), r.choice(CACHES), limit))
    return out


def batches(tag, lines, n):
    return [(tag, ["S"] + lines[i:i + n]) for i in range(0, len(lines), n)]


B01 = ("tiles", "count", "threads")
B02 = ("count", "bijection", "linear")


@check("B01")
def b01(ctx):
    r = random.Random(ctx.seed)
    off = [c for c in B02 if c not in B01]
    sm = list(small(r, KERNEL, ctx.pick(24, 64)))
    sc = batches("small", sm, 100)
    sc += batches("large", large(r, ctx.pick(12000, 200000), 4096), 50)
    script.check(ctx, exe(), "BlockMap", sc, off=off)
    script.check(ctx, exe("ndebug"), "BlockMap", batches("large, unchecked build", large(r, ctx.pick(4000, 60000), 2048), 50), off=off)
    ctx.extra["maps"] = ctx.trace_events - ctx.traces


@check("B02")
def b02(ctx):
    r = random.Random(ctx.seed)
    off = [c for c in B01 if c not in B02]
    top = ctx.pick(7, 8)
    cur = []
    for order in range(4):
        for a in range(0, top + 1):
            for k in range(0, 7 if a < 6 else 3):
                if 2 * a + k > 2 * top:
                    continue
                cur.append("C %d %d 0 %d" % (a, k, order))
                if k:
                    cur.append("C %d 0 %d %d" % (a, k, order))
    sc = batches("curve", cur, 4)
    sc += batches("huge", ["D %d %d %d %d" % (a, rl, rr, order) for order in range(4)
                           for a in range(top + 1, ctx.pick(13, 15)) for rl, rr in ((0, 0), (2, 0), (0, 2))] +
                  ["D %d 0 0 %d" % (ctx.pick(13, 15), order) for order in range(4)], 1)
    sm = list(small(r, KERNEL, ctx.pick(20, 60)))
    sc += batches("small", sm, 100)
    sc += batches("large", large(r, ctx.pick(10000, 150000), 4096), 50)
    script.check(ctx, exe(), "BlockMap", sc, off=off)
    ctx.extra["maps_and_curves"] = ctx.trace_events - ctx.traces
