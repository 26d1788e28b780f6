"""Generation of multiplication problems for sessions."""
import random
from session import *  # noqa: F401,F403
from session import Session, I8, U8, I16, I32, F32, F64, LO, HI, INT_PAIRS, FLOATS, PATHS, INF

DIMS = [1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 31, 32, 33]
DEPTHS = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 19, 24, 33]


def view(rnd, rows, cols, order, zp=0, pol=0, pad=None, off=None):
    """A view of a rows x cols matrix and the length of its buffer."""
    inner = cols if order else rows
    outer = rows if order else cols
    st = inner + (rnd.choice([0, 0, 0, 1, 3, 16]) if pad is None else pad)
    off = rnd.choice([0, 0, 0, 1, 5]) if off is None else off
    n = off + st * (outer - 1) + inner
    return dict(off=off, rows=rows, cols=cols, st=st, ord=order, zp=zp, pol=pol, dz=0), n


def zero_points(rnd, tl, tr, td):
    if td >= 4:
        return 0, 0, 0
    if I16 in (tl, tr):
        return 0, 0, 0

    def one(t):
        return rnd.choice([0 if LO[t] <= 0 else 1, LO[t], HI[t], rnd.randint(LO[t], HI[t]), (LO[t] + HI[t] + 1) // 2])
    while True:
        zl, zr = one(tl), one(tr)
        if zl == LO[tl] and zr == LO[tr] and (tl, tr) != (U8, U8):
            continue
        zd = one(td) if td != I32 else 0
        return zl, zr, zd


def values(rnd, ty, n, style=None):
    style = style or rnd.choice(["any", "any", "extreme", "small"])
    if ty >= 4:
        lim = rnd.choice([1, 3, 15, 200])
        return [rnd.randint(-lim, lim) for _ in range(n)]
    if style == "extreme":
        return [rnd.choice([LO[ty], HI[ty], LO[ty], HI[ty], rnd.randint(LO[ty], HI[ty])]) for _ in range(n)]
    if style == "small" or ty == I16:
        a, b = max(LO[ty], -9), min(HI[ty], 9)
        if ty == I16 and style != "small":
            a, b = -2000, 2000
        return [rnd.randint(a, b) for _ in range(n)]
    return [rnd.randint(LO[ty], HI[ty]) for _ in range(n)]


SPAN = {I8: 255, U8: 255, I16: 32768}


def multiplier(rnd, tl, tr, depth):
    """A multiplier that keeps a good part of the results unclamped, and every
    rescaled value within 32 bits."""
    bound = (2000 * 2000 if (tl, tr) == (I16, I16) else SPAN[tl] * SPAN[tr]) * depth + 20000
    emax = min(7, 31 - bound.bit_length() - 1)
    e = min(emax, rnd.choice([-1, -2, -4, -6, -8, -10, -12, -16, 0, 1, 3, 7]))
    m = rnd.choice([1 << 30, (1 << 31) - 1, (1 << 30) + 1, rnd.randint(1 << 30, (1 << 31) - 1)])
    return m, e


def problem(s, rnd, c, types, rows, cols, depth, orders=None, pol=(0, 0), place=None, ch=None, clamp=True, rnd_cap=None,
            bias=None, mode=None, zps=None, mxcsr=0, pads=(None, None, None), lbuf=None, rbuf=None):
    """Adds buffers and one multiplication; returns the matrices used."""
    tl, tr, td = types
    orders = orders or (rnd.randint(0, 1), rnd.randint(0, 1), rnd.randint(0, 1))
    zl, zr, zd = zps or zero_points(rnd, tl, tr, td)
    place = rnd.randint(0, 1) if place is None else place
    l, nl = view(rnd, rows, depth, orders[0], zl, pol[0], pads[0])
    r, nr = view(rnd, depth, cols, orders[1], zr, pol[1], pads[1])
    d, nd = view(rnd, rows, cols, orders[2], zd, 0, pads[2])
    style = "any" if (tl, tr) == (I16, I16) else None
    l["b"] = s.buf(tl, values(rnd, tl, nl, style), True, place, 0)
    r["b"] = s.buf(tr, values(rnd, tr, nr, style), True, place, 1)
    d["b"] = s.buf(td, [rnd.randint(-100, 100) if td not in (U8,) else rnd.randint(0, 100) for _ in range(nd)], False,
                   place, 2)
    params(s, rnd, c, types, l, r, d, place, ch, clamp, rnd_cap, bias, mode, mxcsr)
    return l, r, d


def params(s, rnd, c, types, l, r, d, place=0, ch=None, clamp=True, rnd_cap=None, bias=None, mode=None, mxcsr=0):
    tl, tr, td = types
    rows, cols, depth = d["rows"], d["cols"], l["cols"]
    ch = rnd.randint(0, 1) if ch is None else ch
    nch = cols if ch else rows
    cap = rnd_cap or rnd.choice([1, 1, 1, 2, 4, 8, 16, 32])
    ncap = (nch + cap - 1) // cap * cap
    kw = dict(ch=ch, rnd=cap, mxcsr=mxcsr)

    def chan(ty, f, side=3):
        return s.buf(ty, [f() for _ in range(nch)] + [0] * (ncap - nch), True, place, side)
    if bias if bias is not None else rnd.random() < 0.6:
        at = {F32: F32, F64: F64}.get(td, I32)
        if td == F32 and F64 in (tl, tr):
            at = F64
        lim = rnd.choice([5, 300, 20000])
        kw["bias"] = chan(at, lambda: rnd.randint(-lim, lim), 2)
    if td < 3:
        md = rnd.choice([1, 2]) if mode is None else mode
        kw["mode"] = md
        if md == 1:
            kw["m"], kw["e"] = multiplier(rnd, tl, tr, depth)
        elif md == 2:
            ms = [multiplier(rnd, tl, tr, depth) for _ in range(nch)]
            it, jt = iter(ms), iter(ms)
            kw["mb"] = chan(I32, lambda: next(it)[0])
            kw["eb"] = chan(I32, lambda: next(jt)[1])
    if td != I32 and clamp and rnd.random() < 0.5:
        lo, hi = (-400, 400) if td >= 4 else (LO[td], HI[td])
        a, b = sorted((rnd.randint(lo, hi), rnd.randint(lo, hi)))
        if rnd.random() < 0.7:
            kw["cmin"] = a
        if rnd.random() < 0.7:
            kw["cmax"] = b
    s.mul(c, types, l, r, d, **kw)


def large(s, rnd, c, types, rows, cols, depth, pol=(0, 0)):
    """One multiplication of large operands, given as sums of two vectors."""
    tl, tr, td = types
    zl, zr, zd = zero_points(rnd, tl, tr, td)
    if depth > 9000 and td < 4 and I16 not in (tl, tr):
        zl, zr = [rnd.randint(0 if t == U8 else -30, 30) for t in (tl, tr)]
    place = rnd.randint(0, 1)
    l, _ = view(rnd, rows, depth, rnd.randint(0, 1), zl, pol[0])
    r, _ = view(rnd, depth, cols, rnd.randint(0, 1), zr, pol[1])
    d, nd = view(rnd, rows, cols, rnd.randint(0, 1), zd)

    def vec(ty, n):
        # halves of the range, such that sums and products stay within bounds
        if ty >= 4:
            lo, hi = -7, 7
        elif ty == I16:
            lo, hi = (-900, 900) if depth <= 300 else (-60, 60) if depth <= 9000 else (-16, 16)
        elif depth > 9000:
            lo, hi = (0, 24) if ty == U8 else (-12, 12)
        else:
            lo, hi = -(-LO[ty] // 2), HI[ty] // 2
        if rnd.random() < 0.3:
            return [rnd.choice([lo, hi]) for _ in range(n)]
        return [rnd.randint(lo, hi) for _ in range(n)]
    l["b"] = s.sums(tl, l, vec(tl, rows), vec(tl, depth), place, 0)
    r["b"] = s.sums(tr, r, vec(tr, depth), vec(tr, cols), place, 1)
    d["b"] = s.filled(td, nd, rnd.randint(0, 100), place)
    params(s, rnd, c, types, l, r, d, place)
