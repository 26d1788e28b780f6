"""M07: packed forms of operands."""
import random
import script, vf
from . import PREBUILD, check


def exe(variant="plain"):
    return vf.build(variant, "pack", ["pack.cc"], None, libs=["-lcpuinfo"])


PREBUILD += [exe, lambda: exe("ndebug")]
PATHS = [1, 2, 4, 8, 0x10, 0x20, 0x40]
LO = {0: -128, 1: 0, 2: -32768}
HI = {0: 127, 1: 255, 2: 32767}
TYPES = [(0, 0), (1, 1), (0, 1), (1, 0), (2, 2), (0, 2), (4, 4), (5, 5), (1, 1), (0, 0)]


def zero_points(r, a, b):
    if a >= 2 or b >= 2:
        return 0, 0
    z = [r.choice([LO[t] + 1, HI[t], 0, LO[t], r.randint(LO[t], HI[t])]) for t in (a, b)]
    if z[0] == LO[a] and z[1] == LO[b] and (a, b) != (1, 1):
        z[0] += 1
    return z


def extent(r, top):
    return r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, r.randint(1, top)])


def scenario(r, types, path, rows, depth, cols, n=50):
    a, b = TYPES[types]
    zl, zr = zero_points(r, a, b)
    sent = r.choice([77, -77]) if 1 not in (a, b) else r.choice([77, 119])
    lines = ["S", "N %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
        types, path, rows, depth, cols, r.randint(0, 1), r.randint(0, 1), r.randint(0, 1), r.choice([0, 0, 1, 5, 13]),
        r.choice([0, 0, 1, 5, 13]), zl, zr, r.choice([0, 0, 1, 2]), sent, r.choice([-7777, 123456]), r.randrange(1 << 40))]
    for side in (0, 1):
        cuts = sorted(set([0, n] + [r.choice([1, 1, 2, 3, 4, 16, 32, r.randrange(1, 50), r.randrange(1, n)]) for _ in range(r.choice([0, 1, 1, 2, 3]))]))
        parts = list(zip(cuts, cuts[1:]))
        r.shuffle(parts)
        if r.random() < 0.3:
            parts.sort(reverse=True)
        if r.random() < 0.15:
            parts.append(r.choice(parts))
        if r.random() < 0.2:
            parts = parts[:1]
        lines += ["P %d %d %d" % (side, x, y) for x, y in parts]
    return ("pack types=%d path=%#x %dx%dx%d" % (types, path, rows, depth, cols), lines)


def scenarios(r, n):
    out = []
    for i in range(n):
        top = r.choice([8, 40, 70])
        out.append(scenario(r, r.choice([0, 1, 6, 9, 8, 0, 1, 6] + list(range(10))), PATHS[i % 7], extent(r, top), extent(r, top),
                            extent(r, top)))
    return out


def long(r, n):
    """Operands with many columns (packed in long ranges) or great depth."""
    out = []
    for i in range(n):
        types = r.choice([0, 1, 6, 9, 8] + list(range(10)))
        far = [r.choice([128, 200, 256, 384, 512, 640, 1100, 1600, 2200]) + r.choice([0, 0, -1, 1, 9]), r.choice([1, 3, 8, 17]), r.choice([1, 4, 5, 9])]
        rows, cols, depth = r.choice([far, [far[1], far[0], far[2]], [far[1], far[2], far[0] * r.choice([1, 1, 2])]])
        out.append(scenario(r, types, PATHS[i % 7], rows, depth, cols, r.choice([50, 100, 200, 300])))
    return out


def sweep(r, deep):
    """Every depth and column count around the kernel sizes, for the types with packing code of their own."""
    out = []
    for path in (0x10, 0x20, 0x40):
        for types in (0, 1, 6):
            for depth in range(1, 36 if deep else 20):
                for cols in range(1, 36 if deep else 18):
                    out.append(scenario(r, types, path, cols, depth, r.choice([1, 8, cols])))
    return out


@check("M07")
def m07(ctx):
    r = random.Random(ctx.seed * 31 + 7)
    script.check(ctx, exe(), "Pack", scenarios(r, ctx.pick(3000, 40000)) + sweep(r, not ctx.quick))
    script.check(ctx, exe("ndebug"), "Pack", scenarios(r, ctx.pick(1000, 10000)) + long(r, ctx.pick(140, 1400)))
    script.check(ctx, exe(), "Pack", long(r, ctx.pick(280, 2800)))
