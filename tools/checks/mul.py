"""M01, M02, M04, M05, M06, M08: what multiplications compute and touch."""
import os
import random
import vf
import session as ss
import gen_mul as g
from session import I8, U8, I16, I32, F32, F64
from . import check, PREBUILD

PREBUILD += [lambda: ss.exe("wrap"), lambda: ss.exe("plain"), lambda: ss.exe("ndebug"), lambda: ss.exe("blind"),
             lambda: ss.exe("reference")]

ASSUME = ["CPU of this machine executes the AVX, AVX2+FMA and AVX-512 paths; ARM paths are not run.",
          "Accumulators are kept within 32 bits, as documented."]


def rnd_types(rnd, ints=True):
    if ints:
        a, b = rnd.choice(ss.INT_PAIRS + [(I8, I8), (U8, U8)] * 2)
        return a, b, rnd.choice([I8, U8, I16, I32])
    return rnd.choice(ss.FLOATS + [(F32, F32, F32)] * 4)


def random_sessions(ctx, n, per, ints, salt=0, paths=ss.PATHS, **kw):
    rnd = random.Random(ctx.seed * 1009 + salt)
    out = []
    for i in range(n):
        s = ss.Session("random %d" % i)
        if not ints:
            s.scale(rnd.choice([0, 0, -6, 5]), rnd.choice([0, 0, 3, -7]))
        s.ctx(0)
        for k in range(per):
            s.paths(0, paths[(i + k) % len(paths)])
            if rnd.random() < 0.2:
                s.threads(0, rnd.randint(1, 4), rnd.randint(0, 1))
            g.problem(s, rnd, 0, rnd_types(rnd, ints), rnd.choice(g.DIMS), rnd.choice(g.DIMS), rnd.choice(g.DEPTHS), **kw)
        s.delete(0)
        out.append(s)
    return out


def large_sessions(ctx, n, per, ints, salt, area, paths=ss.PATHS):
    """Many blocks, long scalar products, elongated shapes, several threads."""
    rnd = random.Random(ctx.seed * 1069 + salt)

    def near(x):
        return max(1, rnd.choice([x, x + 1, x - 1, x + rnd.randint(-9, 9)]))
    out = []
    for i in range(n):
        s = ss.Session("large %d" % i)
        if not ints:
            s.scale(rnd.choice([0, 0, -6, 5]), rnd.choice([0, 0, 3, -7]))
        s.ctx(0)
        for k in range(per):
            s.paths(0, paths[(i + k) % len(paths)])
            s.threads(0, rnd.choice([1, 1, 2, 3, 5, 8]), rnd.randint(0, 1))
            types = rnd_types(rnd, ints)
            a = rnd.choice([64, 96, 128, 200, 256, 320, 512, 1024])
            shape = rnd.randrange(6) if i % 7 else 6
            if shape == 0:
                dims = near(a), near(rnd.choice([1, 1, 2, 8, 16, 33])), near(rnd.choice([8, 64, 300, 1000]))
            elif shape == 1:
                dims = near(rnd.choice([1, 1, 2, 8, 16, 33])), near(a), near(rnd.choice([8, 64, 300, 1000]))
            elif shape == 2:
                dims = near(rnd.choice([1, 4, 16, 40])), near(rnd.choice([1, 4, 16, 40])), near(rnd.choice([1000, 4096, 8192]))
            elif shape == 6:
                dims = near(rnd.choice([1, 4, 9])), near(rnd.choice([1, 4, 9])), near(rnd.choice([32768, 65536, 70000, 131072]))
            else:
                dims = near(a), near(min(1024, area // a)), near(rnd.choice([1, 8, 32, 64, 128, 300]))
            if types == (I16, I16, types[2]):
                dims = dims[:2] + (min(dims[2], 300),)
            g.large(s, rnd, 0, types, *dims, pol=(rnd.choice([0, 0, 3]), rnd.choice([0, 0, 3])))
        s.delete(0)
        out.append(s)
    return out


def large(ctx, ints, salt):
    # caches as detected, and the small ones assumed when nothing is detected
    n, area = ctx.pick((14, 24000), (42, 60000))
    ss.check(ctx, large_sessions(ctx, n, 7, ints, salt, area))
    ss.check(ctx, large_sessions(ctx, n, 7, ints, salt + 1, area), "blind")


@check("M01")
def m01(ctx):
    ctx.assumptions = ASSUME
    large(ctx, True, 1)
    ss.check(ctx, random_sessions(ctx, ctx.pick(200, 3000), 7, True, 1))


@check("M02")
def m02(ctx):
    ctx.assumptions = ASSUME
    large(ctx, False, 3)
    ss.check(ctx, random_sessions(ctx, ctx.pick(160, 2400), 7, False, 2))


@check("M11")
def m11(ctx):
    ctx.assumptions = ASSUME[1:]
    for k, ints in enumerate((True, False)):
        ss.check(ctx, random_sessions(ctx, ctx.pick(100, 1600), 7, ints, 31 + k, paths=[1], pol=(0, 0)), "reference")
        ss.check(ctx, large_sessions(ctx, ctx.pick(8, 24), 4, ints, 33 + k, 24000, paths=[1]), "reference")


# Builds, and the paths that exist in them (0: leave the choice to detection).
OPTIONS = {"opt_none": [0, 1, 0, 2, 4, 8], "opt_trace": [0, 1, 0, 2, 4, 8], "opt_slim": ss.PATHS + [0],
           "opt_linear": ss.PATHS + [0], "opt_native": ss.PATHS + [0]}
PREBUILD += [lambda v=v: ss.exe(v) for v in OPTIONS]


@check("X05")
def x05(ctx):
    ctx.assumptions = ASSUME
    os.environ["RUY_TRACE_FILE"] = os.path.join(ctx.dir, "trace")
    for k, (v, paths) in enumerate(OPTIONS.items()):
        ss.check(ctx, random_sessions(ctx, ctx.pick(40, 400), 7, True, 41 + k, paths, pol=(0, 3)) +
                 random_sessions(ctx, ctx.pick(40, 400), 7, False, 51 + k, paths, pol=(3, 0)), v)
        ss.check(ctx, large_sessions(ctx, ctx.pick(3, 12), 5, True, 61 + k, 12000, paths) +
                 large_sessions(ctx, ctx.pick(3, 12), 5, False, 71 + k, 12000, paths), v)


SIZES = [1, 1, 2, 4, 4, 8]


# ----------------------------------------------------- beyond 2^31 elements (M09)
def wide_sessions(ctx, n, salt):
    """Matrices whose last entries lie more than 2^31 (2^32) elements after the
    first: few entries, far apart."""
    rnd = random.Random(ctx.seed * 1051 + salt)
    out = []
    for i in range(n):
        s = ss.Session("wide %d" % i)
        types = rnd_types(rnd, rnd.random() < 0.6)
        tl, tr, td = types
        s.ctx(0)
        s.paths(0, ss.PATHS[i % 7])
        if rnd.random() < 0.3:
            s.threads(0, 3, 1)
        which = rnd.choice("lrd")
        ty = types["lrd".index(which)]
        # sixteen rows or columns within 2^31 bytes
        cap = 2**27 // SIZES[ty] - 100
        far = rnd.choice([2**31 + 2**28, 2**32 + 2**28, 2**31 - 2**20])
        outer = far // cap + 2 + rnd.randrange(9)
        stride = far // (outer - 1) + rnd.randrange(64)
        order = rnd.randint(0, 1)
        a, b = (outer, rnd.choice([1, 2, 5])) if order else (rnd.choice([1, 2, 5]), outer)
        rows, depth, cols = rnd.choice([1, 2, 9]), rnd.choice([1, 3, 8]), rnd.choice([1, 3, 9])
        if which == "l":
            rows, depth = a, b
        elif which == "r":
            depth, cols = a, b
        else:
            rows, cols = a, b
        zl, zr, zd = g.zero_points(rnd, tl, tr, td)
        mats = []
        for nm, t, a, b, zp, side in (("l", tl, rows, depth, zl, 0), ("r", tr, depth, cols, zr, 1),
                                      ("d", td, rows, cols, zd, 2)):
            v, ln = g.view(rnd, a, b, order if nm == which else rnd.randint(0, 1), zp)
            if nm == which:
                inner = (b if order else a) + rnd.choice([0, 1, 3])
                v.update(st=inner, off=0, rst=stride)
                ln = inner * outer
            vals = [rnd.randint(0, 100) for _ in range(ln)] if nm == "d" else \
                g.values(rnd, t, ln, rnd.choice(["any", "small"]) if I16 in (tl, tr) else None)
            v["b"] = (s.wide(t, vals, inner, stride, nm != "d", side) if nm == which else
                      s.buf(t, vals, nm != "d", rnd.randint(0, 1), side))
            mats.append(v)
        g.params(s, rnd, 0, types, *mats)
        s.delete(0)
        out.append(s)
    return out


@check("M09")
def m09(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, wide_sessions(ctx, ctx.pick(400, 4000), 1))
    # what the optimiser makes of an overflow is chance: here it wraps
    ss.check(ctx, wide_sessions(ctx, ctx.pick(400, 4000), 2), "wrap")
    if ctx.tier == "thorough":
        # packed operands of more than 2^31 elements
        s = ss.Session("packed")
        s.ctx(0)
        s.big(0, 40000 * 60000, 1, 7 * 60000, 3)
        s.big(1, 60000, 2)
        for p, t in ((0x40, 1), (0x20, 3), (0x10, 1), (1, 3)):
            s.paths(0, p)
            s.threads(0, t, 1)
            s.bigmul(0, 0, 1, 40000, 1, 60000, 0, 0, 7)
        s.delete(0)
        ss.check(ctx, [s])


# --------------------------------------------------------------- memory (M04)
EDGE = list(range(1, 19)) + [23, 24, 25, 31, 32, 33]


def edge_sessions(ctx, n, per, salt):
    """Every extent near the kernel sizes in turn, buffers against inaccessible
    pages on either side."""
    rnd = random.Random(ctx.seed * 1019 + salt)
    out = []
    for i in range(n):
        s = ss.Session("edges %d" % i)
        s.ctx(0)
        for k in range(per):
            s.paths(0, ss.PATHS[(i + k) % 7])
            dims = [rnd.choice([1, 2, 3, 5, 8]) for _ in range(3)]
            which = rnd.randrange(4)
            if which < 3:
                dims[which] = EDGE[(i * per + k) % len(EDGE)]
            else:
                dims = [rnd.choice(EDGE) for _ in range(3)]
            g.problem(s, rnd, 0, rnd_types(rnd, rnd.random() < 0.6), dims[0], dims[1], dims[2],
                      place=(i + k) % 2, pol=rnd.choice([(0, 0), (0, 0), (3, 0), (0, 3)]),
                      pads=[rnd.choice([0, 1, 7, 40]) for _ in range(3)])
            if rnd.random() < 0.3:
                s.clear(0)
        out.append(s)
    return out


@check("M04")
def m04(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, edge_sessions(ctx, ctx.pick(160, 2400), 8, 4))


# ------------------------------------------------------------ rescaling (M05)
def fits(x, m, e):
    return abs(x) << max(e, 0) < 1 << 31 and abs(x * m) >> (31 - e) < (1 << 31) - 70000


def rescale_values(rnd):
    """An accumulator, a mantissa and an exponent in the domain."""
    while True:
        e = rnd.randint(-31, 7)
        m = rnd.choice([0, 1, 1 << 30, (1 << 31) - 1, (1 << 30) + 1, rnd.randrange(1 << 31), rnd.randrange(1 << 30, 1 << 31),
                        3 << 29, rnd.randrange(1 << rnd.randint(1, 31))])
        kind = rnd.randrange(4)
        if kind == 0:
            x = rnd.choice([-1, 1]) * rnd.randrange(1 << rnd.randint(1, 31))
        elif kind == 1:
            x = rnd.choice([0, 1, -1, (1 << 31) - 1, -(1 << 31) + 1, 1 << 30, -(1 << 30)]) + rnd.choice([0, 0, 1, -1])
        elif m:
            # near the rounding boundary of a small result
            t = rnd.choice([rnd.randint(-40000, 40000), rnd.randint(-130, 130)])
            x = ((2 * t + 1) << (30 - e)) // m + rnd.choice([-1, 0, 0, 1])
        else:
            x = rnd.randint(-9, 9)
        if -(1 << 31) < x < (1 << 31) and fits(x, m, e):
            return x, m, e


def rescale_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1021 + salt)
    out = []
    for i in range(n):
        s = ss.Session("rescale %d" % i)
        s.ctx(0)
        for k in range(per):
            s.paths(0, ss.PATHS[(i + k) % 7])
            tl, tr = rnd.choice([(I8, I8), (U8, U8), (I8, U8), (U8, I8), (I8, I16), (I16, I16)])
            td = rnd.choice([I16, I16, I8, U8])
            ch = rnd.randint(0, 1)
            nch = rnd.choice([1, 5, 8, 16, 17, 33, 48])
            oth = rnd.choice([1, 1, 2, 3, 9])
            rows, cols = (oth, nch) if ch else (nch, oth)
            zl, zr, zd = g.zero_points(rnd, tl, tr, td)
            l, nl = g.view(rnd, rows, 1, 0, zl, 0, 0, 0)
            r, nr = g.view(rnd, 1, cols, 0, zr, 0, 0, 0)
            d, nd = g.view(rnd, rows, cols, rnd.randint(0, 1), zd, 0, 0, 0)
            # products vanish: the accumulators are the bias
            l["b"] = s.buf(tl, [zl] * nl)
            r["b"] = s.buf(tr, g.values(rnd, tr, nr, "any"))
            d["b"] = s.buf(td, [0] * nd, False)
            if rnd.random() < 0.5:
                xs = [rescale_values(rnd) for _ in range(nch)]
                kw = dict(mode=2, mb=s.buf(I32, [x[1] for x in xs]), eb=s.buf(I32, [x[2] for x in xs]))
            else:
                _, m, e = rescale_values(rnd)
                xs = []
                for _ in range(nch):
                    for _ in range(300):
                        x = rescale_values(rnd)[0]
                        if fits(x, m, e):
                            break
                    else:
                        x = rnd.randint(-9, 9)
                    xs.append((x, m, e))
                kw = dict(mode=1, m=m, e=e)
            s.mul(0, (tl, tr, td), l, r, d, bias=s.buf(I32, [x[0] for x in xs]), ch=ch, **kw)
        out.append(s)
    return out


def finding_sessions(which):
    """Sessions that exhibit exactly one recorded deviation each."""
    out = []
    for p in ([0x10, 0x20, 0x40] if which == "twice" else ss.PATHS):
        s = ss.Session("%s on path %#x" % (which, p))
        s.ctx(0)
        s.paths(0, p)
        l = dict(b=s.buf(I8, [1]), off=0, rows=1, cols=1, st=1, ord=0, zp=1, pol=0, dz=0)
        r = dict(b=s.buf(I8, [1]), off=0, rows=1, cols=1, st=1, ord=0, zp=0, pol=0, dz=0)
        d = dict(b=s.buf(I16, [0], False), off=0, rows=1, cols=1, st=1, ord=0, zp=0, pol=0, dz=0)
        if which == "twice":
            s.mul(0, (I8, I8, I16), l, r, d, bias=s.buf(I32, [-85861]), mode=1, m=1 << 30, e=-2)
        else:
            s.mul(0, (I8, I8, I16), l, r, d, bias=s.buf(I32, [1000]), mode=0, m=(1 << 31) - 1, e=0)
        out.append(s)
    return out


TWICE = ("accelerated paths round twice: accumulator -85861 with multiplier 2^30, exponent -2 gives -10732 "
         "instead of -10733")
DEFAULT = ("multiplier left at its default acts as 0 instead of (effectively) 1: accumulator 1000 gives 0")


def only_if(got, text):
    """A recorded finding is this very output, nothing else."""
    return lambda s, why, ev: text if why == "result" and ev.get("out") == [got] else None


@check("M05")
def m05(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, rescale_sessions(ctx, ctx.pick(160, 2400), 8, 5))
    ss.check(ctx, finding_sessions("twice"), cfg="SessionStrict", known=only_if(-10732, TWICE))
    ss.check(ctx, finding_sessions("default"), cfg="SessionStrict", known=only_if(0, DEFAULT))


# ------------------------------------------------- per-channel buffers (M06)
def channel_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1031 + salt)
    out = []
    for i in range(n):
        s = ss.Session("channels %d" % i)
        s.ctx(0)
        s.paths(0, ss.PATHS[i % 7])
        for k in range(per):
            if rnd.random() < 0.3:
                s.paths(0, rnd.choice(ss.PATHS))
            nch = rnd.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49])
            oth = rnd.choice([1, 1, 2, 4, 8, 9, 17])
            ch = rnd.randint(0, 1)
            rows, cols = (oth, nch) if ch else (nch, oth)
            g.problem(s, rnd, 0, rnd_types(rnd, rnd.random() < 0.75), rows, cols, rnd.choice([1, 2, 5]), ch=ch,
                      rnd_cap=rnd.choice([1, 2, 4, 8, 16, 32]), bias=rnd.random() < 0.7, place=0)
        out.append(s)
    return out


@check("M06")
def m06(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, channel_sessions(ctx, ctx.pick(160, 2400), 10, 6))


# -------------------------------------------------- floating-point mode (M08)
MASKS = 0x1f80


def fp_modes(rnd):
    """Control words: rounding, denormal handling, masks, sticky flags.  The
    exceptions that exact arithmetic cannot raise may be unmasked."""
    mode = MASKS
    for bit in (0x80, 0x200, 0x400):  # invalid, divide by zero, overflow
        if rnd.random() < 0.4:
            mode &= ~bit
    mode |= rnd.choice([0, 0x2000, 0x4000, 0x6000])
    mode |= rnd.choice([0, 0x40, 0x8000, 0x8040])
    mode |= rnd.choice([0, 0, 0x20, 0x02, 0x10, 0x32])
    return mode


def denormal_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1033 + salt)
    out = []
    for i in range(n):
        s = ss.Session("denormals %d" % i)
        f64 = i % 3 == 2
        ty = F64 if f64 else F32
        side = i % 2  # which operand holds denormals
        low = -1026 if f64 else -130
        s.scale(*((low, 60) if side == 0 else (60, low)))
        s.ctx(0)
        for k in range(per):
            s.paths(0, ss.PATHS[(i + k) % 7])
            big = k % 3 == 0
            s.threads(0, rnd.choice([2, 3, 4]) if big else 1, 1)
            rows, cols = (rnd.choice([40, 64]), rnd.choice([48, 64])) if big else (rnd.choice(g.DIMS), rnd.choice(g.DIMS))
            depth = rnd.choice([1, 2, 3, 5])
            ops = []
            for j, (a, b) in enumerate(((rows, depth), (depth, cols))):
                v, nv = g.view(rnd, a, b, rnd.randint(0, 1))
                vals = [rnd.choice([0, 1, -1, 7, -15, 15, 16, -16, 17, 40, rnd.randint(-60, 60)]) for _ in range(nv)]
                v["b"] = s.buf(ty, vals, True, 0, j)
                if j == side:
                    v["dz"] = 16
                ops.append(v)
            d, nd = g.view(rnd, rows, cols, rnd.randint(0, 1))
            d["b"] = s.buf(ty, [0] * nd, False, 0, 2)
            g.params(s, rnd, 0, (ty, ty, ty), ops[0], ops[1], d, mxcsr=fp_modes(rnd) if rnd.random() < 0.8 else 0)
        s.delete(0)
        out.append(s)
    return out


def mode_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1039 + salt)
    out = []
    for i in range(n):
        s = ss.Session("modes %d" % i)
        s.ctx(0)
        for k in range(per):
            s.paths(0, ss.PATHS[(i + k) % 7])
            s.threads(0, rnd.randint(1, 4), rnd.randint(0, 1))
            g.problem(s, rnd, 0, rnd_types(rnd, rnd.random() < 0.4), rnd.choice(g.DIMS), rnd.choice(g.DIMS),
                      rnd.choice(g.DEPTHS), mxcsr=fp_modes(rnd), pol=(rnd.choice([0, 3]), rnd.choice([0, 3])))
            s.clear(0)
        out.append(s)
    return out


@check("M08")
def m08(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, denormal_sessions(ctx, ctx.pick(64, 900), 6, 8))
    ss.check(ctx, mode_sessions(ctx, ctx.pick(100, 1500), 7, 9))


# ------------------------------------------------------------------ caching
def fit_view(rnd, n, rows, cols, pol, zp):
    """A random view of a rows x cols matrix into a buffer of n entries."""
    for _ in range(50):
        v, need = g.view(rnd, rows, cols, rnd.randint(0, 1), zp, pol, rnd.choice([0, 0, 1, 2]), rnd.choice([0, 0, 0, 1, 4]))
        if need <= n:
            return v
    v, need = g.view(rnd, rows, cols, 0, zp, pol, 0, 0)
    assert need <= n
    return v


CACHE_TYPES = [(I8, I8, I32), (U8, U8, U8), (F32, F32, F32), (I8, I8, I16), (F64, F64, F64), (I8, I16, I32)]


def cache_sessions(ctx, n, per, salt):
    """The same few buffers seen through many views, cached on either side."""
    rnd = random.Random(ctx.seed * 1013 + salt)
    out = []
    for i in range(n):
        s = ss.Session("cache %d" % i)
        types = CACHE_TYPES[i % len(CACHE_TYPES)]
        tl, tr, td = types
        nc = rnd.choice([1, 1, 2])
        for c in range(nc):
            s.ctx(c)
            s.paths(c, rnd.choice(ss.PATHS))
        size = 330
        same = tl == tr
        data = [s.buf(tl, g.values(rnd, tl, size, "any"), True, 0, 0) for _ in range(2)]
        other = data if same else [s.buf(tr, g.values(rnd, tr, size, "any"), True, 0, 1)]
        dims = [rnd.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16]) for _ in range(3)]
        zps = [g.zero_points(rnd, tl, tr, td) for _ in range(2)]
        views = []
        for k in range(per):
            c = rnd.randrange(nc)
            x = rnd.random()
            if x < 0.12:
                s.paths(c, rnd.choice(ss.PATHS))
            elif x < 0.2:
                s.clear(c)
            elif x < 0.3:
                b = rnd.choice(data + other)
                s.poke(b, g.values(rnd, s.types[b][0], size, "any"))
                for cc in range(nc):
                    s.clear(cc)
            if views and rnd.random() < 0.35:
                l, r = rnd.choice(views)
                l, r = dict(l, pol=rnd.choice([0, 1, 2, 3, 3])), dict(r, pol=rnd.choice([0, 1, 2, 3, 3]))
            else:
                rows, cols, depth = (max(1, rnd.choice(dims) + rnd.choice([0, 0, 0, -1, 1])) for _ in range(3))
                zl, zr, _ = rnd.choice(zps)
                l = fit_view(rnd, size, rows, depth, rnd.choice([0, 3, 3, 3]), zl)
                r = fit_view(rnd, size, depth, cols, rnd.choice([0, 3, 3, 3]), zr)
                l["b"], r["b"] = rnd.choice(data), rnd.choice(other)
                views.append((l, r))
            d, nd = g.view(rnd, l["rows"], r["cols"], rnd.randint(0, 1), zps[0][2])
            d["b"] = s.buf(td, [0] * nd, False, 0, 2)
            g.params(s, rnd, c, types, l, r, d)
        for c in range(nc):
            s.delete(c)
        s.use()
        out.append(s)
    return out


def pressure_sessions(ctx):
    """Cached operands that do not fit into the cache together."""
    rnd = random.Random(ctx.seed * 1049)
    out = []
    for path, width in ((0x40, 16), (0x20, 8)):
        for shape in range(ctx.pick(2, 4)):
            s = ss.Session("pressure %#x %d" % (path, shape))
            s.ctx(0)
            s.paths(0, path)
            budget = 1 << 28
            depth = {0: budget // 2 // width + 4096, 1: budget // 3 // width, 2: budget // width + 512,
                     3: budget * 2 // 5 // width}[shape]
            depth -= depth % 4
            for b in range(4):
                s.big(b, depth, [1, -1, 2, 3][b])
            for k in range(ctx.pick(4, 8)):
                lb, rb = rnd.randrange(4), rnd.randrange(4)
                s.bigmul(0, lb, rb, 1, 1, depth, rnd.choice([3, 3, 1]), 3)
            s.delete(0)
            out.append(s)
    return out


@check("K01")
def k01(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, cache_sessions(ctx, ctx.pick(96, 1200), 24, 21))
    ss.check(ctx, pressure_sessions(ctx))


def policy_sessions(ctx, n, per, salt):
    """Data rewritten behind the cache's back shows whether an operand was kept:
    every buffer is only ever seen through one view."""
    rnd = random.Random(ctx.seed * 1051 + salt)
    out = []
    for i in range(n):
        s = ss.Session("policy %d" % i)
        types = CACHE_TYPES[i % len(CACHE_TYPES)]
        tl, tr, td = types
        path = ss.PATHS[(i // len(CACHE_TYPES)) % 7]
        kw = {1: [1], 2: [4], 4: [4, 8], 8: [8, 16]}.get(path, [8, 16])
        depth = rnd.choice([1, 2, 3, 5])
        zl, zr, zd = g.zero_points(rnd, tl, tr, td)
        nc = rnd.choice([1, 1, 2])

        def fresh(c):
            s.ctx(c)
            s.paths(c, path)
        for c in range(nc):
            fresh(c)
        widths = sorted({max(1, w * f + dlt) for w in kw for f in (1, 4) for dlt in (-1, 0, 1)} | {1, 2})
        ls, rs = [], []
        for _ in range(3):
            v, nv = g.view(rnd, rnd.choice(widths), depth, rnd.randint(0, 1), zl)
            v["b"] = s.buf(tl, g.values(rnd, tl, nv, "any"), True, 0, 0)
            ls.append((v, nv))
            v, nv = g.view(rnd, depth, rnd.choice(widths), rnd.randint(0, 1), zr)
            v["b"] = s.buf(tr, g.values(rnd, tr, nv, "any"), True, 0, 1)
            rs.append((v, nv))
        for _ in range(per):
            c = rnd.randrange(nc)
            x = rnd.random()
            if x < 0.45:
                v, nv = rnd.choice(ls + rs)
                s.poke(v["b"], g.values(rnd, s.types[v["b"]][0], nv, "any"))
            elif x < 0.55:
                s.clear(c)
            elif x < 0.6:
                s.delete(c)
                fresh(c)
            l, r = dict(rnd.choice(ls)[0]), dict(rnd.choice(rs)[0])
            l["pol"], r["pol"] = rnd.choice([0, 1, 1, 2, 2, 3]), rnd.choice([0, 1, 1, 2, 2, 3])
            d, nd = g.view(rnd, l["rows"], r["cols"], rnd.randint(0, 1), zd, 0, 0, 0)
            d["b"] = s.buf(td, [0] * nd, False, 0, 2)
            g.params(s, rnd, c, types, l, r, d)
        for c in range(nc):
            s.delete(c)
        out.append(s)
    return out


@check("K04")
def k04(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, policy_sessions(ctx, ctx.pick(126, 1500), 14, 24))


# ------------------------------------------------------------------ paths (X01)
COMPILED = [0x01, 0x11, 0x21, 0x41, 0x03, 0x31, 0x55, 0x2b, 0x71]


def path_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1061 + salt)
    out = []
    for i in range(n):
        s = ss.Session("paths %d" % i)
        nc = rnd.choice([1, 2])
        if rnd.random() < 0.4:
            s.env(rnd.randrange(1, 0x80))
        for c in range(nc):
            s.ctx(c)
            s.use(c)
        for _ in range(per):
            c = rnd.randrange(nc)
            x = rnd.random()
            if x < 0.4:
                s.paths(c, rnd.randrange(1, 0x80))
            elif x < 0.6:
                s.paths(c, 0)
                s.use(c)
            elif x < 0.7:
                s.env(rnd.choice([0, rnd.randrange(1, 0x80)]))
            elif x < 0.75:
                s.delete(c)
                s.ctx(c)
                s.use(c)
            elif x < 0.8:
                s.threads(c, rnd.randint(1, 3), 0)
                s.use(c)
            types = rnd.choice([(I8, I8, I32), (F32, F32, F32)])
            cp = rnd.choice([0, 0] + COMPILED)
            rows, cols, depth = (rnd.choice([1, 2, 5, 9]) for _ in range(3))
            l, nl = g.view(rnd, rows, depth, rnd.randint(0, 1))
            r, nr = g.view(rnd, depth, cols, rnd.randint(0, 1))
            d, nd = g.view(rnd, rows, cols, rnd.randint(0, 1))
            l["b"] = s.buf(types[0], g.values(rnd, types[0], nl))
            r["b"] = s.buf(types[1], g.values(rnd, types[1], nr))
            d["b"] = s.buf(types[2], [0] * nd, False)
            s.mul(c, types, l, r, d, cp=cp)
            if rnd.random() < 0.3:
                s.use(c)
        out.append(s)
    return out


@check("X01")
def x01(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, path_sessions(ctx, ctx.pick(160, 2400), 14, 31))


# -------------------------------------------------------------- resources (A03)
def resource_sessions(ctx, n, per, salt):
    rnd = random.Random(ctx.seed * 1063 + salt)
    out = []
    for i in range(n):
        s = ss.Session("resources %d" % i)
        bufs = []
        for _ in range(3):
            types = rnd_types(rnd, rnd.random() < 0.6)
            tl, tr, td = types
            rows, cols, depth = rnd.choice([1, 9, 33, 64]), rnd.choice([1, 8, 17, 64]), rnd.choice([1, 3, 8])
            zl, zr, zd = g.zero_points(rnd, tl, tr, td)
            l, nl = g.view(rnd, rows, depth, rnd.randint(0, 1), zl)
            r, nr = g.view(rnd, depth, cols, rnd.randint(0, 1), zr)
            d, nd = g.view(rnd, rows, cols, rnd.randint(0, 1), zd)
            l["b"] = s.buf(tl, g.values(rnd, tl, nl, "any"), True, 0, 0)
            r["b"] = s.buf(tr, g.values(rnd, tr, nr, "any"), True, 0, 1)
            d["b"] = s.buf(td, [0] * nd, False, 0, 2)
            bufs.append((types, l, r, d))

        def mul(c, which, pol, prm):
            types, l, r, d = bufs[which]
            g.params(s, random.Random(prm), c, types, dict(l, pol=pol[0]), dict(r, pol=pol[1]), d)

        def cycle(seed):
            """What one context lives through; the same for the same seed."""
            q = random.Random(seed)
            s.ctx(0)
            for _ in range(per):
                x = q.random()
                if x < 0.2:
                    s.paths(0, q.choice(ss.PATHS))
                elif x < 0.4:
                    s.threads(0, q.randint(1, 4), q.randint(0, 1))
                elif x < 0.5:
                    s.clear(0)
                which, prm = q.randrange(3), q.randrange(1 << 30)
                pol = (q.choice([0, 0, 3]), q.choice([0, 0, 3]))
                mul(0, which, pol, prm)
                if q.random() < 0.3:
                    pol = (0, 0)
                    for _ in range(3):
                        mul(0, which, pol, prm)
                    s.use()
                    for _ in range(2):
                        mul(0, which, pol, prm)
                        s.use(same=1)
            s.delete(0)
        seed = rnd.randrange(1 << 30)
        cycle(seed)
        s.use()
        cycle(seed)
        s.use()
        cycle(rnd.randrange(1 << 30))
        s.use()
        out.append(s)
    return out


@check("A03")
def a03(ctx):
    ctx.assumptions = ASSUME
    ss.check(ctx, resource_sessions(ctx, ctx.pick(64, 900), 6, 41))
