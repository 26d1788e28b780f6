"""V01, V02: what checked builds refuse, and the parameters object."""
import itertools, random
import script, vf
from . import PREBUILD, check


def exe():
    return vf.build("plain", "validate", ["validate.cc"], None, libs=["-lcpuinfo"])


PREBUILD.append(exe)
# of the type combinations of the harness: ranges of zero points of left, right, destination
I8, U8, I16, I32, F = (-128, 127), (0, 255), (-32768, 32767), (-1 << 29, 1 << 29), None
TYPES = [(I8, I8, I8), (I8, I8, I32), (U8, U8, U8), (U8, U8, I32), (I8, U8, I16), (U8, I8, I32), (I8, I16, I16), (I16, I8, I32),
         (I16, I16, I8), (U8, I16, U8), (I16, U8, I32), (F, F, F), (F, F, F), (F, F, F), (U8, U8, I16), (I8, I8, U8)]


def some(r, t):
    if t is None:
        return r.choice([0, 0, 0, 1, -1, 2, -2, 7])
    lo, hi = t
    return 2 * r.choice([lo, hi, 0 if lo <= 0 <= hi else lo, lo + 1, hi - 1, r.randint(lo, hi), 0, 0])


@check("V01")
def v01(ctx):
    r = random.Random(ctx.seed * 71 + 1)
    sc = []
    for i, (a, b, d) in enumerate(TYPES):
        lines = ["S 0"]
        if a is None:
            zls = range(-3, 4)
        elif a in (I8, U8) and not ctx.quick:
            zls = range(2 * a[0], 2 * a[1] + 1, 2)
        else:
            zls = sorted({some(r, a) for _ in range(ctx.pick(150, 400))} | {2 * a[0], 2 * a[1], 0})
        # every right zero point against these
        rng = (-6, 6, 1) if b is None else (2 * b[0], 2 * b[1], 2) if b in (I8, U8) else (-200, 200, 2)
        for zl in zls:
            for path in ctx.pick([r.choice([1, 0x10, 0x20, 0x40])], [1, 0x10, 0x40]):
                lines.append("Z %d %d %d %d 0 %d %d %d" % ((i, path, zl, some(r, d)) + rng))
            if r.random() < 0.3:
                lines.append("Z %d %d %d %d 0 %d %d %d" % ((i, 1, zl, 0) + rng))
        for zd in range(-6, 7) if d is None else range(-20, 22, 2) if d[0] < 0 else range(0, 40, 2):
            lines.append("Z %d 1 0 %d 0 0 %d 1" % (i, zd, 1 if b is None else 0))
        # destination data that may not be written
        lines.append("Z %d 1 0 0 1 %d %d %d" % ((i,) + rng))
        for k in range(1, len(lines), 20):
            sc.append(("types %d" % i, ["S 0"] + lines[k:k + 20]))
    script.check(ctx, exe(), "Validate", sc)
    ctx.extra["multiplications_attempted"] = sum(len(range(int(x[6]), int(x[7]) + 1, int(x[8])))
                                                 for _, ls in sc for x in map(str.split, ls) if x[0] == "Z")


FIELDS = {"mf": [0, 1, 1 << 30, -5], "me": [0, -3, 7], "pf": [0, 1, 2], "pe": [0, 1, 3], "bias": [0, 1, 2],
          "lo": [-100, 3, 0], "hi": [100, 7], "ch": [0, 1], "cap": [1, 2, 4, 8, 16, 32, 64, 128, 1024, 3, 6, 12, 24, 5, 65536],
          "copy": [0], "reset": [0]}


@check("V02")
def v02(ctx):
    r = random.Random(ctx.seed * 73 + 1)
    sc = []
    # all sequences over the multiplier settings
    ops = ["P mf 0", "P mf 9", "P me 0", "P me -2", "P pf 0", "P pf 1", "P pe 0", "P pe 1", "P copy 0"]
    for n in range(1, ctx.pick(4, 6)):
        for seq in itertools.product(ops, repeat=n):
            if n < 5 or r.random() < 0.4:
                sc.append(("all", ["S %d" % r.randrange(3)] + list(seq)))
    for i in range(ctx.pick(800, 8000)):
        d = r.randrange(3)
        ls = ["S %d" % d]
        for _ in range(r.randrange(1, 25)):
            f = r.choice(list(FIELDS))
            v = r.choice(FIELDS[f])
            ls.append("P %s %d" % (f, max(v, 0) if d == 1 and f in ("lo", "hi") else v))
        sc.append(("random", ls))
    script.check(ctx, exe(), "Validate", sc)
