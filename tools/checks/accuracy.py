"""M10: accuracy of floating-point products of arbitrary data."""
import random
import script, vf
from . import PREBUILD, check


def exe(variant="plain"):
    return vf.build(variant, "accuracy", ["accuracy.cc"], None, libs=["-lcpuinfo"])


PREBUILD += [exe, lambda: exe("blind")]
PATHS = [1, 2, 4, 8, 0x10, 0x20, 0x40]
EXTENTS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 40, 65]


def scenarios(r, n, deep):
    out = []
    for i in range(n):
        lines = ["S"]
        for _ in range(4):
            ty = r.choice([0, 0, 0, 0, 0, 1, 2, 3])
            depth = r.choice([1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 24, 33, r.randint(1, 48), r.randint(40, deep)])
            if ty:
                depth = min(depth, 64)
            rows, cols = r.choice(EXTENTS), r.choice(EXTENTS)
            if r.random() < 0.04:
                rows, cols = r.choice([100, 200, 257]), r.choice([100, 200, 257])
            exp = [r.choice([0, -3, 5, r.randint(-30, 30)]) for _ in range(2)]
            lines.append("P %d %d" % (r.choice(PATHS + [0x10, 0x20, 0x40, 0x40] if ty == 0 else [1, 2, 0x40]),
                                      r.choice([1, 1, 2, 4])))
            lines.append("M %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
                ty, r.randrange(1 << 40), rows, cols, depth, r.randrange(8), r.randrange(2), r.choice([0, 0, 1, 5]),
                r.randrange(2), r.choice([0, 0, 0, 1, 2, 3, 3]), r.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 6, 6]), exp[0], exp[1],
                r.choice([0, 0, 3]), r.choice([0, 0, 3]), 10 if depth < 64 else 4))
        out.append(("products %d" % i, lines))
    return out


@check("M10")
def m10(ctx):
    r = random.Random(ctx.seed * 97 + 10)
    ctx.assumptions = ["CPU of this machine executes the AVX, AVX2+FMA and AVX-512 paths; ARM paths are not run.",
                       "No overflow or underflow: all values are integers of bounded size times a power of two."]
    script.check(ctx, exe(), "Accuracy", scenarios(r, ctx.pick(400, 5000), ctx.pick(160, 330)))
    script.check(ctx, exe("blind"), "Accuracy", scenarios(r, ctx.pick(60, 600), ctx.pick(160, 330)))
